"""C07: channel references resolve as documented."""
import itertools
import re
import numpy as np
from core import expect, same
from channelpack import ChannelPack

PROP = 'C07'
ASSUMPTIONS = ['references are int or str', 'the prefix is a valid '
               'identifier']

KEYSETS = [(), (0,), (1,), (0, 1), (1, 0), (0, 2, 10), (3, 1), (-1, 1)]
NAMEPOOL = [None, 'a', 'b', 'ch0', 'ch1', 'ch10', '1', '', 'a b', ' a  b.c ',
            'ch', 'x1', 'Ch0']
REFS = [0, 1, 2, 3, 10, 7, -1, 'a', 'b', 'ch0', 'ch1', 'ch2', 'ch10', 'ch3',
        'ch7', 'ch', '', '1', '0', 'a b', ' a  b.c ', 'ch1foo', 'ch1 ',
        ' ch1', 'xch1', 'ch01', 'ch1\n', 'Ch1', 'CH1', 'x1', 'x0', 'xx1',
        'ch-1', 'ch1.0', 'ch0b', 'ch_1', 'q0', 'q1', 'x', 'ab', 'A']
PREFIXES = ['ch', 'x', 'c', 'ch1', 'q', 'c_']


def resolve(keys, names, prefix, ref):
    """The documented lookup order, in words; None for KeyError, or a set of
    acceptable keys when duplicate names are ambiguous."""
    if isinstance(ref, int):
        return {ref} if ref in keys else None
    named = [k for k, v in names.items() if v == ref]
    if named:
        good = {k for k in named if k in keys}
        if len(named) == 1:
            return good or None
        # duplicates: any of them that has data; with one lacking data the
        # code may also refuse
        return good | {None} if len(good) < len(named) else good
    if ref.startswith(prefix):
        rest = ref[len(prefix):]
        if rest and all(c in '0123456789' for c in rest):
            k = int(rest)
            if k in keys:
                return {k}
    return None


def first_word(s):
    w = s.split()
    return w[0] if w else None


def case(R, keys, names, prefix, refs):
    names = dict(names)
    p = ChannelPack({k: np.array([k * 10, k * 10 + 1]) for k in keys}, names)
    if prefix != 'ch':
        p.FALLBACK_PREFIX = prefix
    out = []
    for ref in refs:
        want = resolve(keys, names, prefix, ref)
        try:
            got = p(ref).tolist()[0] // 10
        except KeyError:
            got = None
        ok = (got is None) if want is None else got in want
        expect(ok, 'pack(%r) with keys %r names %r prefix %r: key %r, '
               'want %r', ref, keys, names, prefix, got, want)
        R.step()
        out.append(got)
        # name() uses the same key
        try:
            nm = p.name(ref, fallback=True)
        except KeyError:
            expect(got is None, 'name(%r, fallback=True) refused', ref)
            try:
                p.name(ref)
            except KeyError:
                continue
            expect(False, 'name(%r) accepted', ref)
        expect(got is not None, 'name(%r, fallback=True) accepted', ref)
        same(nm, prefix + str(got), 'fallback name of %r' % (ref,))
        same(p.name(ref, firstwordonly=True, fallback=True),
             prefix + str(got), 'fallback name ignores firstwordonly')
        if got in names:
            s = names[got]
            same(p.name(ref), s, 'name(%r)' % (ref,))
            w = first_word(s)
            if w is not None:
                same(p.name(ref, firstwordonly=True), w,
                     'first word of %r' % s)
            for rx in (r'\w+', r'[a-c]', r'\d+', r'(c)h(\d)', r'x*', r'^',
                       r'(q)?a', r'b|'):
                found = re.findall(rx, s)
                try:
                    r = p.name(ref, firstwordonly=rx)
                except ValueError:
                    expect(not found, 'regex %r on %r refused', rx, s)
                else:
                    expect(found, 'regex %r on %r gave %r', rx, s, r)
                    same(r, found[0], 'regex %r on %r' % (rx, s))
        else:
            try:
                r = p.name(ref)
            except KeyError:
                pass
            else:
                expect(False, 'name(%r) without a name gave %r', ref, r)
    R.state((keys, tuple(sorted(names.items())), prefix))
    return tuple(out)


def namedicts(keys, extra, pool, maxn):
    """All name dicts over data keys and one key without data, with at most
    maxn names."""
    slots = list(keys) + list(extra)
    for combo in itertools.product(pool, repeat=len(slots)):
        d = [(k, v) for k, v in zip(slots, combo) if v is not None]
        if len(d) <= maxn:
            yield tuple(d)


def enum(R, pool, maxn, prefixes, shard, nshards):
    i = 0
    for keys in KEYSETS:
        extra = () if len(keys) >= 3 else (5,)
        for nd in namedicts(keys, extra, pool, maxn):
            for prefix in prefixes:
                i += 1
                if i % nshards == shard:
                    R.do(case, keys, nd, prefix, REFS)


def order_case(R, order):
    """The fallback name resolves back to its own key for every key unless
    shadowed by a name."""
    n = len(order)
    for perm in itertools.permutations(range(n)):
        names = {k: 'ch%d' % perm[i] for i, k in enumerate(order)}
        p = ChannelPack({k: [k] for k in order}, names)
        for k in order:
            same(p(k)[0], k, 'pack(%d)' % k)
            same(p(names[k])[0], k, 'pack(%r)' % names[k])
            same(p.name(names[k]), names[k], 'name(%r)' % names[k])
            same(p.name(k, fallback=True), 'ch%d' % k, 'fallback')
            R.step(4)
    R.state(order)
    return order


def orders(R, n):
    for k in range(1, n + 1):
        for order in itertools.permutations(range(k)):
            R.do(order_case, order)


def bigkeys_case(R, k):
    p = ChannelPack({k: [1], k + 1: [2]}, {k: 'n'})
    same(p('ch%d' % k)[0], 1, 'pack(ch%d)' % k)
    same(p('ch%d' % (k + 1))[0], 2, 'pack(ch%d)' % (k + 1))
    same(p.name('ch%d' % k), 'n', 'name')
    for bad in ('ch%d' % (k + 2), 'ch%d ' % k, 'ch%da' % k, 'ch%d.' % k):
        try:
            p(bad)
        except KeyError:
            continue
        expect(False, 'pack(%r) accepted', bad)
    R.state(k)
    R.step(7)
    return k


def bigkeys(R, top):
    for k in list(range(top)) + [10 ** e + d for e in range(3, 19)
                                 for d in (-2, -1, 0, 1)]:
        R.do(bigkeys_case, k)


WORDS = ['a b', 'a\tb', 'a\nb', ' a b', '\ta b', 'a  b', 'a\r\nb', 'a\xa0b',
         'a.b c', 'ab', 'a ', '\n a\n', 'a\x0bb', 'a\x0cb', 'a-b', 'a,b',
         'a;b', 'a\u3000b', u'\xe5\xe4 \xf6', '1 a', '(a b)', 'a:b', 'A B',
         'a' * 40 + ' b', 'a b c d e f g']


def words_case(R, s, pad):
    s = pad + s
    p = ChannelPack({0: [1], 4: [2]}, {0: s, 4: 'other'})
    # a word is what is between white space
    word = ''
    for c in s:
        if c.isspace():
            if word:
                break
        else:
            word += c
    for ref in (0, s, 'ch0'):
        same(p.name(ref), s, 'name')
        same(p.name(ref, firstwordonly=True), word, 'first word of %r' % s)
        same(p.name(ref, True), word, 'first word of %r' % s)
        same(p.name(ref, fallback=True), 'ch0', 'fallback')
        R.step(4)
    same(p(s).tolist(), [1], 'pack(%r)' % s)
    for bad in {s.strip(), s.upper(), s.lower(), s + ' ', ' ' + s, s[:-1],
                s[1:], s + s, ' '.join(s.split()), word, s.title(),
                s.swapcase(), 'Other', 'other ', ' other', 'othe'} - {s}:
        try:
            p(bad)
        except KeyError:
            R.step()
        else:
            expect(False, 'pack(%r) accepted with name %r', bad, s)
        try:
            p.name(bad)
        except KeyError:
            continue
        expect(False, 'name(%r) accepted with name %r', bad, s)
    R.state(s)
    return word


def words(R):
    for s in WORDS:
        for pad in ('', ' ', '\t', '  '):
            R.do(words_case, s, pad)


CH = {'set': lambda p, a: p.names.__setitem__(1, a),
      'del': lambda p, a: p.names.pop(1, None),
      'swap': lambda p, a: p.names.update(
          {0: p.names.get(1, a), 1: p.names.get(0, a)}),
      'assign': lambda p, a: setattr(p, 'names', {0: a, 1: 'k'}),
      'clear': lambda p, a: p.names.clear(),
      'data+': lambda p, a: p.data.__setitem__(7, np.array([70, 71])),
      'data-': lambda p, a: p.data.pop(7, None),
      'datanew': lambda p, a: setattr(p, 'data', {0: [0, 1], 1: [10, 11]}),
      'prefix': lambda p, a: setattr(p, 'FALLBACK_PREFIX', 'x'),
      'prefix2': lambda p, a: setattr(p, 'FALLBACK_PREFIX', 'ch')}


def mutate_case(R, ops):
    """Lookups between changes of names, data and prefix always use the
    current contents."""
    refs = ['a', 'b', 'k', 'ch0', 'ch1', 'ch7', 'x0', 'x1', 'x7', 0, 1, 7]
    p = ChannelPack({0: [0, 1], 1: [10, 11]}, {0: 'a', 1: 'b'})
    out = []
    for op in (None,) + ops:
        if op:
            CH[op[0]](p, op[1])
        for _ in (1, 2):
            for ref in refs:
                want = resolve(tuple(p.data), dict(p.names),
                               p.FALLBACK_PREFIX, ref)
                try:
                    got = int(p(ref)[0]) // 10
                except KeyError:
                    got = None
                expect(got in want if want else got is None,
                       'after %r: pack(%r) is key %r, want %r (names %r)',
                       ops, ref, got, want, dict(p.names))
                try:
                    nm = p.name(ref)
                except KeyError:
                    nm = None
                same(nm, p.names.get(got) if got is not None else None,
                     'after %r: name(%r)' % (ops, ref))
                R.step()
        out.append(tuple(sorted(p.names.items())))
    R.state((tuple(out), p.FALLBACK_PREFIX, tuple(sorted(p.data))))
    return tuple(out)


def mutates(R, depth, shard, nshards):
    al = [(o, a) for o in sorted(CH) for a in ('a', 'b', 'q')
          if a == 'a' or o in ('set', 'assign', 'swap')]
    for i, ops in enumerate(itertools.product(al, repeat=depth)):
        if i % nshards == shard:
            R.do(mutate_case, ops)


def many_case(R, n, order):
    """Every name and fallback of a pack with n channels."""
    keys = list(range(n))
    if order == 'reversed':
        keys.reverse()
    elif order == 'text':
        keys.sort(key=str)
    elif order == 'gaps':
        keys = [k * k for k in keys]
    p = ChannelPack({k: [k] for k in keys},
                    {k: 'name %d' % (n - i) for i, k in enumerate(keys)})
    for i, k in enumerate(keys):
        nm = 'name %d' % (n - i)
        same(int(p(k)[0]), k, 'pack(%d)' % k)
        same(int(p(nm)[0]), k, 'pack(%r)' % nm)
        same(int(p('ch%d' % k)[0]), k, 'pack(ch%d)' % k)
        same(p.name(k), nm, 'name(%d)' % k)
        same(p.name('ch%d' % k), nm, 'name(ch%d)' % k)
        same(p.name(nm, fallback=True), 'ch%d' % k, 'fallback of %r' % nm)
        R.step(6)
    R.state((n, order))
    return (n, order)


def many(R):
    for n in (1, 5, 9, 10, 11, 17, 33, 65, 101, 129, 257, 300):
        for order in ('plain', 'reversed', 'text', 'gaps'):
            R.do(many_case, n, order)


def bounds(tier):
    return ('8 key sets x all name dicts of <=2 (thorough: <=3) names from '
            '12 x %s prefixes x 41 references; all fallback-name '
            'permutations to n=%d; keys 0..%d and around powers of 10; 25 names '
            'for the first word; lookups between all sequences of 2 '
            '(thorough 3) changes; up to 300 channels' %
            (('3', 4, 300) if tier == 'quick' else ('6', 5, 5000)))


def tasks(tier):
    q = tier == 'quick'
    t = [('orders', (4 if q else 5,)), ('bigkeys', (300 if q else 5000,))]
    t += [('words', ()), ('many', ())]
    t += [('mutates', (d, s, 8)) for d in ((1, 2) if q else (1, 2, 3))
          for s in range(8)]
    small = [x for x in NAMEPOOL if x not in ('ch10', 'x1', 'b')]
    t += [('enum', (small if q else NAMEPOOL, 2 if q else 3,
                    PREFIXES[:3] if q else PREFIXES, s, 32))
          for s in range(32)]
    return t
