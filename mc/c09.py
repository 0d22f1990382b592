"""C09: data and names dicts hold only integer keys and flat arrays."""
import collections
import itertools
import numpy as np
from core import expect, same
import packmodel as pm
from channelpack import ChannelPack

PROP = 'C09'
ASSUMPTIONS = ['pairs are tuples or lists of length two', 'integer means '
               'Python int']


class Mapp(collections.abc.Mapping):
    """A mapping that is not a dict."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class Once(object):
    """An iterable that can be iterated once."""

    def __init__(self, pairs):
        self.it = iter(pairs)

    def __iter__(self):
        return self.it


KEYS = [0, 1, -2, True, 'a', '', 'ab', 'abc', 1.0, None, (1, 2), b'x']
ARR = {'list': lambda: [1, 2], 'tuple': lambda: ('p', 'q'),
       'array': lambda: np.array([3., 4.]), 'empty': lambda: [],
       'range': lambda: range(2), 'mixed': lambda: [1, 'x'],
       'none': lambda: [None, None],
       # not flat
       'scalar': lambda: 5, 'str': lambda: 'ab', 'NoneV': lambda: None,
       '2d': lambda: [[1, 2], [3, 4]], 'ragged': lambda: [[1], [2, 3]],
       '2darr': lambda: np.zeros((2, 2)), '0d': lambda: np.array(1)}
FLAT = ('list', 'tuple', 'array', 'empty', 'range', 'mixed', 'none')
NAMEVALS = {'n1': lambda: 'x', 'n2': lambda: 'yy', 'n3': lambda: ''}

# form -> (needs dict of items, builder)
FORMS = {
    'dict': lambda it: dict(it),
    'ordered': lambda it: collections.OrderedDict(it),
    'mapping': lambda it: Mapp(dict(it)),
    'list': lambda it: [(k, v) for k, v in it],
    'lists': lambda it: [[k, v] for k, v in it],
    'tuple': lambda it: tuple((k, v) for k, v in it),
    'gen': lambda it: ((k, v) for k, v in it),
    'zip': lambda it: zip([k for k, v in it], [v for k, v in it]),
    'items': lambda it: dict(it).items(),
    'iter': lambda it: iter([(k, v) for k, v in it]),
    'once': lambda it: Once([(k, v) for k, v in it]),
    'map': lambda it: map(tuple, [[k, v] for k, v in it]),
}
HASHABLE_FORMS = ('dict', 'ordered', 'mapping', 'items')


def val(v):
    return pm.nlist(np.array(v))


def okkey(k):
    return isinstance(k, int)


def contents(d, isdata):
    return {k: (val(v) if isdata else v) for k, v in d.items()}


def check_dict(d, isdata, want, what):
    for k, v in d.items():
        expect(isinstance(k, int), '%s: key %r', what, k)
        if isdata:
            expect(isinstance(v, np.ndarray) and v.ndim == 1,
                   '%s: value %r of key %r', what, v, k)
    same(contents(d, isdata), want, what)


def vals(isdata, tag):
    return (ARR if isdata else NAMEVALS)[tag]()


def expected_error(items, isdata):
    errs = set()
    for k, tag in items:
        if not okkey(k):
            errs.add(TypeError)
        if isdata and tag not in FLAT:
            errs.add(ValueError)
    return tuple(errs)


def apply(p, isdata, op):
    """op on the pack; returns value."""
    d = p.data if isdata else p.names
    name = op[0]
    if name == 'setitem':
        d[op[1][0][0]] = vals(isdata, op[1][0][1])
    elif name == 'update':
        it = [(k, vals(isdata, t)) for k, t in op[1]]
        d.update(FORMS[op[2]](it))
    elif name == 'kwupdate':
        d.update(**{k: vals(isdata, t) for k, t in op[1]})
    elif name == 'ior':
        it = [(k, vals(isdata, t)) for k, t in op[1]]
        d |= FORMS[op[2]](it)
        same(d is (p.data if isdata else p.names), True, 'in-place merge')
    elif name == 'attrior':
        it = [(k, vals(isdata, t)) for k, t in op[1]]
        if isdata:
            p.data |= FORMS[op[2]](it)
        else:
            p.names |= FORMS[op[2]](it)
    elif name == 'assign':
        it = [(k, vals(isdata, t)) for k, t in op[1]]
        if isdata:
            p.data = FORMS[op[2]](it)
        else:
            p.names = FORMS[op[2]](it)
    elif name == 'setdefault':
        return d.setdefault(op[1][0][0], vals(isdata, op[1][0][1]))
    elif name == 'get':
        return d.setdefault(op[1][0][0])
    elif name == 'pop':
        d.pop(op[1][0][0], None)
    elif name == 'clear':
        d.clear()


def history(R, isdata, init, ops):
    """Run dict operations on a pack's dict, against a plain dict."""
    what = ''
    start = {k: vals(isdata, t) for k, t in init}
    p = (ChannelPack(dict(start)) if isdata
         else ChannelPack({0: [1]}, dict(start)))
    model = {k: (val(v) if isdata else v) for k, v in start.items()}
    for op in ops:
        what = '%s %r' % ('data' if isdata else 'names', op)
        items = op[1] if len(op) > 1 else ()
        if len(op) > 2 and op[2] in HASHABLE_FORMS:
            items = tuple(dict(items).items())
        errs = expected_error(items, isdata)
        if op[0] == 'pop' or op[0] == 'clear':
            errs = ()
        if op[0] in ('setdefault', 'get') and errs and okkey(items[0][0]) \
                and items[0][0] in model:
            errs = ()           # the default is not used
        before = dict(model)
        if op[0] in ('setitem', 'update', 'ior', 'attrior', 'kwupdate'):
            for k, t in items:
                if not errs:
                    model[k] = (val(vals(True, t)) if isdata
                                else vals(False, t))
        elif op[0] == 'assign':
            if not errs:
                model = {}
                for k, t in items:
                    model[k] = (val(vals(True, t)) if isdata
                                else vals(False, t))
        elif op[0] == 'setdefault' and not errs:
            k, t = items[0]
            if k not in model:
                model[k] = (val(vals(True, t)) if isdata
                            else vals(False, t))
        elif op[0] == 'pop':
            model.pop(items[0][0], None)
        elif op[0] == 'clear':
            model = {}
        try:
            ret = apply(p, isdata, op)
        except errs or () as e:
            model = before
        else:
            expect(not errs, '%s: accepted', what)
            if op[0] in ('setdefault', 'get'):
                expect(ret is not None, '%s returned None', what)
                same(val(ret) if isdata else ret, model[items[0][0]],
                     what + ' return value')
                if isdata:
                    expect(isinstance(ret, np.ndarray), '%s returned %r',
                           what, type(ret))
        check_dict(p.data if isdata else p.names, isdata, model, what)
        R.step()
    R.state((isdata, tuple(sorted((k, str(v)) for k, v in model.items())),
             ops[-1] if ops else ()))
    return (isdata, tuple(sorted((k, str(v)) for k, v in model.items())))


def construct(R, isdata, items, form):
    """Constructor with every argument shape."""
    from channelpack.pack import ChannelPack as CP
    if form in HASHABLE_FORMS:
        items = tuple(dict(items).items())
    it = [(k, vals(isdata, t)) for k, t in items]
    errs = expected_error(items, isdata)
    want = {}
    if not errs:
        for k, t in items:
            want[k] = val(vals(True, t)) if isdata else vals(False, t)
    what = 'ChannelPack(%s=%s %r)' % ('data' if isdata else 'names', form,
                                      items)
    try:
        p = (CP(FORMS[form](it)) if isdata else CP(None, FORMS[form](it)))
    except errs or ():
        return ('refused', isdata)
    expect(not errs, '%s: accepted', what)
    check_dict(p.data if isdata else p.names, isdata, want, what)
    R.step()
    R.state((isdata, items, form))
    return (isdata, items)


def itemlists(isdata, maxn, tagpool, keypool):
    for n in range(0, maxn + 1):
        for ks in itertools.product(keypool, repeat=n):
            for tags in itertools.product(tagpool, repeat=n):
                yield tuple(zip(ks, tags))


def usable(form, items):
    return True


def constructs(R, isdata, maxn, shard, nshards):
    tags = sorted(ARR) if isdata else sorted(NAMEVALS)
    i = 0
    for items in itemlists(isdata, 1, tags, KEYS):
        for form in sorted(FORMS):
            i += 1
            if i % nshards == shard:
                R.do(construct, isdata, items, form)
    tags2 = ['list', 'array', 'scalar', '2d'] if isdata else ['n1', 'n2']
    for items in itemlists(isdata, maxn, tags2, [0, 1, -2, 'a', 'abc']):
        for form in sorted(FORMS):
            i += 1
            if i % nshards == shard:
                R.do(construct, isdata, items, form)


def opset(isdata, small):
    tags = (['list', 'array', 'scalar', '2d', 'str', 'empty'] if isdata
            else ['n1', 'n2'])
    keys = [0, 1, 'a'] if small else [0, 1, 7, 'a', 'ab', 1.0, None]
    if small:
        tags = ['list', '2d'] if isdata else ['n1', 'n2']
    ops = []
    for k in keys:
        for t in tags:
            ops.append(('setitem', ((k, t),)))
            ops.append(('setdefault', ((k, t),)))
        if isdata:
            ops.append(('get', ((k, 'NoneV'),)))
            ops.append(('setdefault', ((k, 'NoneV'),)))
    singles = [((k, t),) for k in keys for t in tags]
    doubles = [((k1, t1), (k2, t2)) for k1, k2 in
               itertools.product(keys, repeat=2)
               for t1, t2 in itertools.product(tags[:2] if not small
                                               else tags, repeat=2)]
    forms = sorted(FORMS) if not small else ['dict', 'gen', 'list', 'mapping']
    for f in forms:
        for it in [()] + singles + doubles[:: (7 if small else 1)]:
            ops.append(('update', it, f))
            if f in ('dict', 'list', 'gen', 'ordered', 'mapping', 'zip'):
                ops.append(('ior', it, f))
            if not small or f in ('dict', 'gen'):
                ops.append(('assign', it, f))
                if f in ('dict', 'list', 'gen'):
                    ops.append(('attrior', it, f))
    ops.append(('kwupdate', (('a', tags[0]),)))
    ops.append(('kwupdate', ()))
    for k in (0, 'a'):
        ops.append(('pop', ((k, tags[0]),)))
    ops.append(('clear',))
    return ops


def singles(R, isdata, shard, nshards):
    good = ['list', 'array'] if isdata else ['n1', 'n2']
    inits = [(), ((0, good[0]),), ((1, good[1]), (0, good[0]))]
    i = 0
    for init in inits:
        for op in opset(isdata, False):
            i += 1
            if i % nshards == shard:
                R.do(history, isdata, init, (op,))
        if init and isdata:
            i += 1
            if i % nshards == shard:
                R.do(history, isdata, init,
                     (('get', ((0, 'NoneV'),)),))


def seqs(R, isdata, depth, shard, nshards):
    ops = opset(isdata, True)
    for i, h in enumerate(itertools.product(ops, repeat=depth)):
        if i % nshards == shard:
            R.do(history, isdata, ((0, 'array' if isdata else 'n1'),), h)


def long_case(R, isdata, n, pos, bad, form, op):
    """n items, one of them (or none) bad: all or nothing."""
    good = [3.0, 4.0] if isdata else 'nm'
    items = [(i * 3 - 5, good if i % 2 else ([i] if isdata else 'n%d' % i))
             for i in range(n)]
    errs = ()
    if pos is not None:
        k, v = items[pos]
        if bad == 'key':
            items[pos] = ('a', v)
            errs = (TypeError,)
        elif bad == 'floatkey':
            items[pos] = (1.5, v)
            errs = (TypeError,)
        elif bad == 'abc':
            items[pos] = ('abc', v)
            errs = (TypeError,)
        else:
            items[pos] = (k, 5 if bad == 'scalar' else [[1, 2], [3, 4]])
            errs = (ValueError,)
    init = {1000: [9] if isdata else 'old', -5: [8] if isdata else 'was'}
    model = {k: (val(v) if isdata else v) for k, v in init.items()}
    p = (ChannelPack(dict(init)) if isdata
         else ChannelPack({0: [1]}, dict(init)))
    arg = FORMS[form](items)
    what = '%s %s of %d items, %s at %r, as %s' % (
        'data' if isdata else 'names', op, n, bad, pos, form)
    if not errs:
        if op == 'assign':
            model = {}
        for k, v in items:
            model[k] = val(v) if isdata else v
    try:
        if op == 'update':
            (p.data if isdata else p.names).update(arg)
        elif op == 'ior':
            if isdata:
                p.data |= arg
            else:
                p.names |= arg
        elif op == 'assign':
            setattr(p, 'data' if isdata else 'names', arg)
        else:
            q = ChannelPack(arg) if isdata else ChannelPack(None, arg)
            expect(not errs, '%s: accepted', what)
            check_dict(q.data if isdata else q.names, isdata,
                       {k: (val(v) if isdata else v) for k, v in items},
                       what)
            model = {k: (val(v) if isdata else v) for k, v in init.items()}
            errs = (None,)
    except errs or () as e:
        pass
    else:
        expect(not errs or errs == (None,), '%s: accepted', what)
    check_dict(p.data if isdata else p.names, isdata, model, what)
    R.step()
    R.state((isdata, n, pos, bad, form, op))
    return (isdata, n, pos, bad)


def longs(R, isdata, shard, nshards):
    i = 0
    for n in (3, 4, 5, 9, 10, 17, 33, 65, 101, 129, 257, 300):
        poss = range(n) if n <= 5 else (0, 1, n // 2, n - 2, n - 1)
        for pos in [None] + list(poss):
            for bad in (['key', 'floatkey', 'abc'] +
                        (['scalar', '2d'] if isdata else [])
                        if pos is not None else ['none']):
                for form in sorted(FORMS):
                    for op in ('update', 'ior', 'assign', 'construct'):
                        i += 1
                        if i % nshards == shard:
                            R.do(long_case, isdata, n, pos, bad, form, op)


def mixed_case(R, isdata, items, form, kw):
    """update with a positional argument and keywords: a keyword is never an
    integer key, so the call is refused and nothing changes."""
    init = {0: [9] if isdata else 'old', 4: [8] if isdata else 'was'}
    p = (ChannelPack(dict(init)) if isdata
         else ChannelPack({0: [1]}, dict(init)))
    d = p.data if isdata else p.names
    model = {k: (val(v) if isdata else v) for k, v in init.items()}
    v = ([1, 2], [3]) if isdata else ('u', 'v')
    arg = FORMS[form]([(k, v[0]) for k in items])
    try:
        d.update(arg, **{k: v[1] for k in kw})
    except TypeError:
        expect(kw or not all(okkey(k) for k in items), 'refused')
    else:
        expect(not kw and all(okkey(k) for k in items),
               'update(%r, **%r) accepted', items, kw)
        for k in items:
            model[k] = val(v[0]) if isdata else v[0]
    check_dict(d, isdata, model, 'update(%s %r, **%r)' % (form, items, kw))
    for bad in ((arg, arg), (1,), ('ab',)):
        try:
            d.update(*bad)
        except (TypeError, ValueError):
            pass
        else:
            expect(False, 'update%r accepted', bad)
        check_dict(d, isdata, model, 'update%r' % (bad,))
    R.step(4)
    R.state((isdata, items, form, kw))
    return (isdata, items, kw)


def mixed(R):
    for isdata in (True, False):
        for items in ((), (0,), (0, 7), (7, 'a'), ('a',), (7, 0, 4, 9)):
            for form in sorted(FORMS):
                for kw in ((), ('a',), ('a', 'b'), ('_1',)):
                    R.do(mixed_case, isdata, items, form, kw)


def bounds(tier):
    return ('11 argument forms x all item lists of length <=1 (12 keys x 14 '
            'value shapes) and <=2 (thorough 3) over 5 keys x 4 shapes; 9 '
            'dict operations x 3 initial contents; all sequences of 2 '
            '(thorough 3, subset) operations; up to 300 items with one bad '
            'key or value at the ends and in the middle; positional and '
            'keyword arguments together')


def tasks(tier):
    q = tier == 'quick'
    t = [('mixed', ())]
    for isdata in (True, False):
        t += [('longs', (isdata, s, 4)) for s in range(4)]
        t += [('constructs', (isdata, 2 if q else 3, s, 8))
              for s in range(8)]
        t += [('singles', (isdata, s, 8)) for s in range(8)]
        t += [('seqs', (isdata, 2, s, 16)) for s in range(16)]
    return t
