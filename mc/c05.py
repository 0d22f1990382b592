"""C05: append_pack concatenates, or fails leaving both packs unchanged."""
import itertools
from core import expect, same
import packmodel as pm
from packmodel import bits

PROP = 'C05'
ASSUMPTIONS = ['dtype of a concatenation is left to numpy; values compare '
               'equal']

KEYSETS = [(), (0,), (1,), (0, 1), (1, 0), (0, 2), (0, 1, 2)]
NAMESETS = [(), (0,), (1,), (0, 1), (1, 0), (0, 5)]
COLS = [lambda n, k: ('i',) + tuple(10 * k + j for j in range(n)),
        lambda n, k: ('f',) + tuple('nan' if j % 2 else 0.5 + k
                                    for j in range(n)),
        lambda n, k: ('o',) + tuple(None if j % 2 else 'z%d' % k
                                    for j in range(n))]


def mkspec(keys, names, n, tag, kind):
    data = tuple((k, COLS[(kind + i) % 3](n, 3 * tag + k))
                 for i, k in enumerate(keys))
    return (data, tuple((k, '%s%d' % ('ab'[tag], k)) for k in names))


def pairs(R, nmax, shard, nshards):
    idx = 0
    for ka, kb in itertools.product(KEYSETS, repeat=2):
        for na, nb in itertools.product(NAMESETS, repeat=2):
            for la, lb in itertools.product(range(nmax + 1), repeat=2):
                idx += 1
                if idx % nshards != shard:
                    continue
                kind = idx % 3
                specs = (mkspec(ka, na, la, 0, kind),
                         mkspec(kb, nb, lb, 1, kind))
                # plain, from masked/limited states, and followed by more
                pre = [()]
                pre.append((('fn', 0, 'fa'), ('fn', 1, 'fb'),
                            ('mindur', 0, 2), ('nof', 0, 'filter')))
                if la and ka and len(set([la])):
                    pre.append((('mask', 0, '0' * la),))
                if lb and kb:
                    pre.append((('mask', 1, '0' * lb), ('mindur', 1, 1)))
                for h in pre:
                    for tail in ((), (('append', 0, 1),),
                                 (('append', 1, 0),), (('fn', 0, 'g'),)):
                        R.do(pm.history, specs,
                             h + (('append', 0, 1),) + tail, True)


def dtypes_case(R, da, db, la, lb):
    """Values of every pair of types survive the concatenation as numpy
    joins them."""
    import numpy as np
    a, bb = pm.mk((da, la)), pm.mk((db, lb))
    try:
        want = np.append(a, bb)
    except Exception as e:      # types that do not join
        w = pm.World([({0: pm.mk(('int', la)), 1: a}, {0: 'x'}),
                      ({0: pm.mk(('int', lb)), 1: bb}, {0: 'y'})])
        try:
            w.p[0].append_pack(w.p[1])
        except Exception:
            w.check(where='after refused append: ')
            return ('nojoin', da, db)
        expect(False, 'append of %s and %s accepted', da, db)
    w = pm.World([({0: a, 1: pm.mk(('int', la))}, {0: 'x'}),
                  ({0: bb, 1: pm.mk(('int', lb))}, {0: 'y'})])
    w.p[0].append_pack(w.p[1])
    same(pm.nlist(w.p[0](0)), pm.nlist(want), 'channel 0')
    same(w.p[0](0).dtype, want.dtype, 'dtype')
    same(pm.nlist(w.p[0](1)), list(range(1, la + 1)) + list(range(1, lb + 1)),
         'channel 1')
    same(w.p[0].mask.tolist(), [True] * (la + lb), 'mask')
    same(pm.nlist(w.p[1](0)), pm.nlist(bb), "other's channel 0")
    R.step()
    R.state((da, db, la, lb))
    return (da, db)


def dtypes(R, nmax):
    for da, db in itertools.product(sorted(pm.DT), repeat=2):
        for la, lb in itertools.product(range(0, nmax + 1), repeat=2):
            R.do(dtypes_case, da, db, la, lb)


def chains(R, depth, shard, nshards):
    specs = ((((0, ('i', 1, 2)), (1, ('s', 'a', 'b'))), ((0, 'x'), (1, 'y'))),
             (((0, ('i', 3)), (1, ('s', 'c'))), ()),
             ((), ((0, 'u'), (1, 'v'))),
             (((0, ('i', 9)),), ((0, 'w'),)))
    o = [('append', i, j) for i in range(4) for j in range(4)]
    o += [('fn', 0, 'f0'), ('fn', 1, 'f1'), ('mask', 0, '10'),
          ('mindur', 1, 2), ('clearnames', 0), ('names', 3, ((0, 'x'), (1, 'q'))),
          ('delitem', 0, 1)]
    old = pm.MAXLEN
    pm.MAXLEN = 16
    try:
        for idx, h in enumerate(itertools.product(o, repeat=depth)):
            if idx % nshards == shard and pm.seq_fits(specs, h):
                R.do(pm.history, specs, h, False)
    finally:
        pm.MAXLEN = old


def big_case(R, n1, n2, nkeys, nappends, named):
    """Many appends, many channels, many rows."""
    import numpy as np
    from channelpack import ChannelPack
    keys = [(7 * i + 3) % (2 * nkeys + 1) for i in range(nkeys)]
    keys = list(dict.fromkeys(keys))

    def data(n, tag):
        d = {}
        for i, k in enumerate(keys):
            kind = i % 3
            if kind == 0:
                d[k] = np.arange(n) + 1000 * tag
            elif kind == 1:
                d[k] = np.array(['t' * (1 + tag) + str(r % 7)
                                 for r in range(n)],
                                dtype='U%d' % (tag + 2))
            else:
                d[k] = np.arange(n) * 0.25 - tag
        return d
    names = {k: 'n%d' % k for k in keys} if named else {}
    p = ChannelPack(data(n1, 0), names)
    p.fn = 'f0'
    want = {k: [v] for k, v in data(n1, 0).items()}
    files = ['f0']
    for j in range(1, nappends + 1):
        q = ChannelPack(data(n2, j), {k: 'q%d' % k for k in reversed(keys)}
                        if named else {})
        q.fn = 'f%d' % j
        if j % 2:
            p.mask = np.zeros(len(p.mask), dtype=bool)
        p.append_pack(q)
        files.append('f%d' % j)
        for k, v in data(n2, j).items():
            want[k].append(v)
            expect(np.array_equal(q(k), v), 'other pack changed')
        R.step()
        same(sorted(p.data), sorted(keys), 'keys after %d appends' % j)
        for k in keys:
            exp = np.concatenate(want[k])
            got = p(k)
            expect(np.array_equal(got, exp), 'channel %d after %d appends '
                   'of %d + %d rows differs', k, j, n1, n2)
        same(p.mask.tolist(), [True] * (n1 + j * n2), 'mask')
        same(list(p.filenames), files, 'filenames')
        same(p.fn, 'f0', 'fn')
        same(dict(p.names), names, 'names')
        same(list(q.filenames), ['f%d' % j], "other's filenames")
    R.state((n1, n2, nkeys, nappends, named))
    return (n1, n2, nkeys, nappends, named)


def big(R, shard, nshards):
    cases = []
    for n1 in (0, 1, 2, 9, 64, 300):
        for n2 in (0, 1, 3, 17, 257):
            for nk, na in ((1, 40), (3, 12), (12, 3), (300, 2)):
                cases.append((n1, n2, nk, na))
    cases += [(n, m, 3, 1) for n in (4097, 32769, 65537) for m in
              (1, 70000)]
    for i, c in enumerate(cases):
        for named in (False, True):
            if (2 * i + named) % nshards == shard:
                R.do(big_case, *c, named)


def bounds(tier):
    return ('quick: 7x7 key sets x 6x6 name sets x lengths<=1 x 4 '
            'prior states x 4 continuations; all 21x21 type pairs lengths '
            '<=2; all append histories of length 3 over 4 packs; up to '
            '40 appends, 300 channels, 135537 rows'
            if tier == 'quick' else
            'thorough: lengths <=2; type pairs lengths <=3; histories of '
            'length 4')


def tasks(tier):
    q = tier == 'quick'
    t = [('pairs', (1 if q else 3, s, 32)) for s in range(32)]
    t += [('big', (s, 8)) for s in range(8)]
    t += [('dtypes', (2 if q else 3,))]
    t += [('chains', (1, 0, 1)), ('chains', (2, 0, 1))]
    t += [('chains', (3 if q else 4, s, 32)) for s in range(32)]
    return t
