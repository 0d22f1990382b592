"""C01: every way of reading a channel agrees with the current mask."""
import itertools
from core import expect, same
import packmodel as pm
import bigpack as bp
from packmodel import bits, explore, sequences      # noqa: F401

PROP = 'C01'
ASSUMPTIONS = ['masks are boolean arrays of the data length and are changed '
               'through the pack (assignment or methods), not by writing '
               'into the array',
               'one thread']

SPEC = lambda n: (((((0, ('i',) + tuple(range(1, n + 1))),
                     (2, ('s',) + tuple('abcdefgh'[:n])))),
                   ((0, 'x'), (2, 'y'))),)


def opset(n, rich):
    ops = [('mask', 0, x) for x in bits(n)]
    ops += [('reset', 0), ('inv', 0)]
    ops += [('and', 0, x) for x in bits(n)] if rich else \
        [('and', 0, x) for x in bits(n)[1::2]]
    ops += [('or', 0, x) for x in bits(n)[::2]]
    ops += [('dur', 0, d, 1, a) for d in range(0, n + 2)
            for a in (True, False)]
    ops += [('mindur', 0, v) for v in (None,) + tuple(range(1, n + 2))]
    ops += [('nof', 0, v) for v in ('nan', 'filter', None)]
    st = bits(n) if rich else bits(n)[:: max(1, 2 ** n // 4)] + bits(n)[-1:]
    ops += [('ss', 0, s, t) for s in st for t in st]
    ops += [('ss', 0, s, t, False) for s in st[-1:] for t in st[:1]]
    ops += [('append', 0, 0)] if n <= 3 else []
    ops += [('data', 0, ((0, ('f', 7.0, 'nan')), (1, ('o', None, 'q')))),
            ('data', 0, ())]
    ops += [('bad', 0, x) for x in ('nof', 'mask', 'mindur')]
    return [o for o in ops]


def okop(ops, n):
    return ops


def guarded_explore(R, n, depth, shard, nshards, rich):
    """Operations with a bit argument only apply to packs of that length:
    histories where the length changed use fitting operations only."""
    specs = SPEC(n)
    ops = opset(n, rich)
    states = pm.model_bfs_sized(specs, ops, depth - 1)
    for idx, (h, size) in enumerate(states):
        if idx % nshards != shard:
            continue
        for op in ops:
            if not pm.fits(op, size):
                continue
            R.do(pm.history, specs, h + (op,), True)
            R.do(pm.history, specs, h + (op,), False)


def seqs(R, n, depth, shard, nshards):
    specs = SPEC(n)
    ops = ([('mask', 0, x) for x in bits(n)[1::2]] +
           [('and', 0, bits(n)[-2]), ('inv', 0), ('reset', 0),
            ('dur', 0, 2, 1, True), ('dur', 0, 1, 1, False),
            ('mindur', 0, 2), ('mindur', 0, None),
            ('ss', 0, bits(n)[-1], bits(n)[1]), ('append', 0, 0),
            ('data', 0, ((0, ('f', 7.0, 'nan', 1.0)[:n + 1]),)),
            ('nof', 0, 'filter'), ('nof', 0, 'nan')])
    for idx, h in enumerate(itertools.product(ops, repeat=depth)):
        if idx % nshards != shard:
            continue
        if not pm.seq_fits(specs, h):
            continue
        R.do(pm.history, specs, h, True)
        R.do(pm.history, specs, h, False)


def dtype_case(R, dt, n, maskbits, nofattr):
    """All reads of one channel of this type: every nof argument and part,
    alone and combined."""
    w = pm.World([({0: pm.mk((dt, n)), 5: pm.mk(('int', n))},
                   {0: 'a', 5: 'b'})])
    w.step(('mask', 0, maskbits))
    if nofattr is not None:
        w.step(('nof', 0, nofattr))
    p, m = w.p[0], w.m[0]
    nparts = len(pm.runs(m.mask))
    for k in (0, 5):
        for part in [None] + list(range(nparts + 2)):
            for nof in (None, 'nan', 'filter', 'ignore'):
                pm.check_read(p, m, k, part, nof)
                R.step()
        # the parts are a partition of the filtered channel
        cat = [v for i in p.parts() for v in pm.nlist(p(k, part=i))]
        same(cat, pm.nlist(p(k, nof='filter')), 'parts versus filter')
    w.check()
    R.state((dt, n, maskbits, nofattr))
    return (dt, maskbits, nofattr)


def dtypes(R, n, nmin, shard, nshards):
    idx = 0
    for k in range(nmin, n + 1):
        for dt in sorted(pm.DT):
            for mb in bits(k):
                for nofattr in (None, 'nan', 'filter'):
                    idx += 1
                    if idx % nshards == shard:
                        R.do(dtype_case, dt, k, mb, nofattr)


WALK = [('mask', 'tf'), ('mask', 'b5'), ('mask', 'none'), ('and', 'notmid'),
        ('or', 'last'), ('inv',), ('reset',), ('dur', 2), ('dur', 1, 1, False),
        ('mindur', 2), ('mindur', None), ('ss', 'first', 'mid'),
        ('ss', 'b5', 'ft', False), ('append',), ('data',), ('nof', 'nan'),
        ('nof', None)]


def sizes(R, ns, pats, pre, shard, nshards):
    """Packs of many sizes: one mask pattern, alone and after another."""
    i = 0
    for n in ns:
        for pat in pats:
            for h in pre:
                i += 1
                if i % nshards == shard:
                    R.do(bp.history, n, h + (('mask', pat),), 0)


def walks(R, ns, order, shard, nshards):
    """One long-lived pack going through every pair (triple) of
    operations."""
    walk = bp.debruijn(WALK, order)
    for i, n in enumerate(ns):
        if i % nshards == shard:
            R.do(bp.history, n, walk, 1)


def bounds(tier):
    return ('quick: all masks of all 21 data types n<=4 x nof x part; BFS '
            'depth 3 on n=3; all sequences of length 4 (18 ops, n=2); 22 mask '
            'patterns on 67 sizes to 2049 and 7 on 21 sizes to 100001; one '
            'history with every pair of 17 operations on 4 sizes'
            if tier == 'quick' else
            'thorough: data types n<=7; BFS depth 3 on n=4 with all '
            'start/stop pairs and depth 4 on n=3; all sequences of length 5 '
            'on n=2, 4 on n=3; 22 patterns on 88 sizes to 100001; histories '
            'with every triple (8 sizes) and quadruple (4 sizes)')


def tasks(tier):
    t = [('sizes', (bp.SMALL + bp.EDGE, bp.PATS,
                    [(), (('mask', 'tf'), ('nof', 'nan')),
                     (('mask', 'none'), ('nof', 'filter'))], s, 8))
         for s in range(8)]
    q = tier == 'quick'
    t += [('sizes', (bp.LARGE, ['tf', 'b5', 'grow', 'notmid', 'half2', 'last',
                                'b10000'] if q else bp.PATS, [()], s, 8))
          for s in range(8)]
    t += [('walks', ((5, 8, 17, 40), 2 if q else 4, s, 4)) for s in range(4)]
    t += [('walks', ((3, 4, 6, 7, 9, 12, 33, 257), 3, s, 8))
          for s in range(8)] if not q else []
    if tier == 'quick':
        t += [('dtypes', (4, 0, s, 8)) for s in range(8)]
        t += [('guarded_explore', (2, 3, s, 8, True)) for s in range(8)]
        t += [('guarded_explore', (3, 3, s, 32, False)) for s in range(32)]
        t += [('seqs', (2, 3, s, 16)) for s in range(16)]
    else:
        t += [('dtypes', (7, 0, s, 32)) for s in range(32)]
        t += [('guarded_explore', (3, 4, s, 64, True)) for s in range(64)]
        t += [('guarded_explore', (4, 3, s, 64, True)) for s in range(64)]
        t += [('seqs', (2, 4, s, 32)) for s in range(32)]
        t += [('seqs', (3, 4, s, 64)) for s in range(64)]
    return t
