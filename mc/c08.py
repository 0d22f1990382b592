"""C08: records are the rows of the selected channels in key order."""
import itertools
import keyword
import numpy as np
from core import expect, same
import packmodel as pm
from packmodel import bits
from channelpack import ChannelPack

PROP = 'C08'
ASSUMPTIONS = ['channels have equal length']

POOL = [None, 'a', 'b', 'ch0', 'ch1', 'ch2', 'x y', '1a', '_a', 'class', '',
        'A']


def legal(names):
    return (all(n.isidentifier() and not keyword.iskeyword(n)
                and not n.startswith('_') for n in names)
            and len(set(names)) == len(names))


def case(R, keys, names, prefix, nofattr, maskbits, selections):
    names = dict(names)
    n = len(maskbits)
    data = {}
    for i, k in enumerate(keys):
        data[k] = (np.array([100 * k + r for r in range(n)]) if i % 2 == 0
                   else np.array(['r%d_%d' % (k, r) for r in range(n)],
                                 dtype='U8'))
    w = pm.World([(data, names)])
    p, m = w.p[0], w.m[0]
    if prefix != 'ch':
        p.FALLBACK_PREFIX = m.prefix = prefix
    w.step(('mask', 0, maskbits))
    if nofattr:
        w.step(('nof', 0, nofattr))
    nparts = len(pm.runs(m.mask))
    out = []
    for part, nof, fallback in selections:
        kk = sorted(data) if fallback else sorted(names)
        fields = ([prefix + str(k) for k in kk] if fallback
                  else [names[k] for k in kk])
        what = 'records(part=%r, nof=%r, fallback=%r) names %r' % (
            part, nof, fallback, names)
        try:
            recs = list(p.records(part=part, nof=nof, fallback=fallback))
        except ValueError:
            expect(not legal(fields), '%s: refused', what)
            out.append('ValueError')
            continue
        except IndexError:
            expect(part is not None and part >= nparts, '%s: IndexError',
                   what)
            out.append('IndexError')
            continue
        expect(legal(fields), '%s: accepted %r', what, fields)
        if kk:
            expect(part is None or part < nparts, '%s: no IndexError', what)
            cols = [m.read(k, part, nof) for k in kk]
            want = [tuple(c[i] for c in cols) for i in range(len(cols[0]))]
        else:
            want = []
        same([tuple(pm.norm(v) for v in r) for r in recs], want, what)
        for r in recs:
            same(list(r._fields), fields, what + ' fields')
            for f, v in zip(fields, r):
                same(pm.norm(getattr(r, f)), pm.norm(v), what + ' attribute')
        R.step()
        out.append(len(recs))
    w.check(reads=False)
    R.state((keys, tuple(sorted(names.items())), prefix, nofattr, maskbits))
    return (tuple(out), tuple(sorted(names.items())), maskbits)


def nodata_case(R, keys, names, n, part, nof, maskbits):
    """A name on a key without data: no record can have that field."""
    p = ChannelPack({k: list(range(n)) for k in keys}, dict(names))
    p.mask = np.array([c == 'T' or c == '1' or c is True for c in maskbits],
                      dtype=bool)
    what = 'records(part=%r, nof=%r) of keys %r names %r' % (part, nof, keys,
                                                            names)
    try:
        recs = list(p.records(part=part, nof=nof))
    except KeyError:
        recs = None
    except IndexError:
        expect(part is not None, '%s: IndexError', what)
        recs = None
    expect(not recs, '%s: %r', what, recs)
    if keys:
        fb = list(p.records(fallback=True, nof='ignore'))
        same([tuple(r) for r in fb], [(i,) * len(keys) for i in range(n)],
             what + ' with fallback')
        same([r._fields for r in fb],
             [tuple('ch%d' % k for k in sorted(keys))] * n, what)
    R.step(2)
    R.state((keys, names, n, part, nof, maskbits))
    return (keys, names, n)


def nodata(R):
    for keys in ((), (0,), (0, 1), (1, 3)):
        for extra in ((5,), (-1,), (2,), (5, 7)):
            for named in itertools.chain.from_iterable(
                    itertools.combinations(keys, k)
                    for k in range(len(keys) + 1)):
                names = tuple((k, 'n%d' % (k + 1))
                              for k in extra + named)
                for n in (1, 2):
                    if not keys and n > 1:
                        continue
                    for mb in bits(n if keys else 0):
                        for part in (None, 0):
                            for nof in (None, 'nan', 'filter', 'ignore'):
                                R.do(nodata_case, keys, names, n, part, nof,
                                     mb)


def selections(nparts):
    return [(part, nof, fb) for fb in (False, True)
            for part in [None] + list(range(nparts + 1))
            for nof in (None, 'nan', 'filter', 'ignore')]


def enum(R, keys, n, pool, maxn, prefixes, shard, nshards):
    i = 0
    for combo in itertools.product(pool, repeat=len(keys)):
        names = tuple((k, v) for k, v in zip(keys, combo) if v is not None)
        if len(names) > maxn:
            continue
        for prefix in prefixes:
            for mb in bits(n):
                for nofattr in (None, 'nan', 'filter'):
                    i += 1
                    if i % nshards == shard:
                        R.do(case, keys, names, prefix, nofattr, mb,
                             selections((n + 1) // 2))


def big_case(R, nkeys, nrows, order, naming, pat, part, nof, fallback):
    """Many channels, many rows."""
    import bigpack as bp
    keys = list(range(nkeys))
    if order == 'reversed':
        keys.reverse()
    elif order == 'text':
        keys.sort(key=str)
    elif order == 'gaps':
        keys = [(3 * k + 1) % (2 * nkeys + 7) for k in keys]
        keys = list(dict.fromkeys(keys))
    data = {k: np.arange(nrows) * 3 + k for k in keys}
    names = {k: ('z%d' % (nkeys - i) if naming == 'z' else
                 'n_%s' % ''.join(chr(97 + int(c)) for c in str(i)))
             for i, k in enumerate(keys)}
    p = ChannelPack(data, names)
    mask = bp.PAT[pat](nrows)
    p.mask = mask
    kk = sorted(keys)
    fields = tuple('ch%d' % k if fallback else names[k] for k in kk)
    s, t = bp.runs(mask)
    if part is not None:
        sel = np.arange(s[part], t[part])
    elif nof == 'filter':
        sel = np.flatnonzero(mask)
    else:
        sel = np.arange(nrows)
    cnt = 0
    cols = [data[k] for k in kk]
    for i, r in zip(sel, p.records(part=part, nof=nof, fallback=fallback)):
        cnt += 1
        same(r._fields, fields, 'fields') if cnt in (1, 2) else None
        if cnt < 50 or cnt % 1009 == 0 or cnt > len(sel) - 3:
            hide = nof == 'nan' and not mask[i] and part is None
            for c, v in zip(cols, r):
                if hide:
                    expect(v != v, 'record %d: %r instead of nan', i, v)
                elif v != c[i]:
                    expect(False, 'record %d of %d fields: %r, want %r', i,
                           nkeys, v, c[i])
    same(cnt, len(sel), 'number of records')
    same(len(list(p.records(part=part, nof=nof, fallback=fallback))),
         len(sel), 'number of records')
    R.step(2)
    R.state((nkeys, nrows, order, naming, pat, part, nof, fallback))
    return (nkeys, nrows, cnt)


def big(R, shard, nshards):
    cases = []
    for nkeys in (6, 9, 10, 11, 12, 17, 27, 101, 256, 257, 300):
        for order in ('plain', 'reversed', 'text', 'gaps'):
            for naming in ('z', 'n'):
                for fb in (False, True):
                    for part, nof in ((None, None), (1, None),
                                      (None, 'filter'), (None, 'nan')):
                        cases.append((nkeys, 7, order, naming, 'b5' if part
                                      is None else 'tf', part, nof, fb))
    for nrows in (257, 1025, 4097, 32769, 65537, 100001):
        for pat, part, nof in (('b5', None, None), ('b5', None, 'filter'),
                               ('tf', nrows // 2 - 1, None),
                               ('notfirst', 0, None), ('b5', None, 'nan')):
            cases.append((2, nrows, 'reversed', 'z', pat, part, nof,
                          nrows % 2 == 0))
    for i, c in enumerate(cases):
        if i % nshards == shard:
            R.do(big_case, *c)


def bounds(tier):
    return ('data key orders (0,1),(1,0),(2,0,1),(0,); all name dicts from '
            'a pool of 12; all masks of length 2 and 3; every '
            'nof/part/fallback selection; also 5 odd fallback prefixes and '
            'negative keys; up to 300 channels in 4 orders and 100001 rows; names '
            'on keys without data' if tier == 'quick' else
            'thorough: masks to length 4, 6 key sets, 3 prefixes')


def tasks(tier):
    q = tier == 'quick'
    t = [('nodata', ())] + [('big', (s, 8)) for s in range(8)]
    t += [('enum', ((10, 2), 2, POOL[:5], 2, ('ch',), s, 4))
          for s in range(4)]
    for keys in ((0,), (0, 1), (1, 0)):
        t += [('enum', (keys, 2, POOL, 2, ('ch', 'a'), s, 8))
              for s in range(8)]
        t += [('enum', (keys, 3, POOL[:6], 2, ('ch',), s, 8))
              for s in range(8)]
    t += [('enum', ((2, 0, 1), 2, POOL[:6], 3, ('ch',), s, 8))
          for s in range(8)]
    # prefixes and keys that do not make identifiers
    for keys in ((0,), (1, 0), (0, -1), (-2,)):
        t += [('enum', (keys, 2, POOL[:4], 2, ('1st', '_', 'x y', '', 'C_'),
                        s, 4)) for s in range(4)]
    if not q:
        for keys in ((0, 1), (10, 9), (2, 0, 1), (1, 2, 0)):
            t += [('enum', (keys, 3, POOL[:8], 3, ('ch', 'a', 'x'), s, 32))
                  for s in range(32)]
            t += [('enum', (keys, 4, POOL[:5], 3, ('ch',), s, 32))
                  for s in range(32)]
    return t
