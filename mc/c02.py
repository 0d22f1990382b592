"""C02: minimum/maximum duration keeps exactly the runs long enough."""
import itertools
from fractions import Fraction
import numpy as np
from core import same, expect
from channelpack import ChannelPack
import packmodel as pm
import bigpack as bp
from packmodel import bits

PROP = 'C02'
ASSUMPTIONS = ['duration and samplerate are the decimal numbers they print '
               'as; their product is at most some millions and not nearer '
               'to a whole number than 1e-6 unless it is one',
               'masks are changed through the pack']

# (duration, samplerate) pairs per required number of samples
PAIRS = {0: [(0, 1), (0, 10), (0.0, 1), (3, 0)],
         1: [(1, 1), (0.5, 2), (0.25, 4), (2, 0.5), (0.125, 8.0)],
         2: [(2, 1), (1, 2), (0.5, 4), (4, 0.5)],
         3: [(3, 1), (1.5, 2), (0.75, 4), (6, 0.5)],
         4: [(4, 1), (2, 2), (0.5, 8), (8, 0.5)],
         5: [(5, 1), (2.5, 2), (1.25, 4), (10, 0.5)],
         6: [(6, 1), (1.5, 4), (12, 0.5)],
         7: [(7, 1), (3.5, 2), (1.75, 4)],
         8: [(8, 1), (2, 4)],
         9: [(9, 1), (4.5, 2)],
         10: [(10, 1), (1, 10)],
         11: [(11, 1), (5.5, 2)]}


def spec(n):
    return ((((0, ('i',) + tuple(range(n))),), ((0, 'x'),)),)


def one(R, n, mb, req, atleast):
    """duration() once per (duration, samplerate) pair, then again with the
    same and with every weaker request (no effect)."""
    for d, sr in PAIRS[req]:
        w = pm.World(pm.mkspecs(spec(n)))
        w.step(('mask', 0, mb))
        w.step(('dur', 0, d, sr, atleast))
        w.check()
        before = list(w.m[0].mask)
        weaker = range(0, req + 1) if atleast else range(req, n + 2)
        for r2 in weaker:
            w.step(('dur', 0, r2, 1, atleast))
            same(w.m[0].mask, before, 'model idempotence')
            R.step()
        w.check()
        R.step()
    R.state((n, mb, req, atleast))
    return (tuple(before), req, atleast)


def singles(R, n, shard, nshards):
    for i, (mb, req, a) in enumerate(itertools.product(
            bits(n), range(0, n + 2), (True, False))):
        if i % nshards == shard:
            R.do(one, n, mb, req, a)


def ops(n, small=False):
    mb = bits(n)
    o = [('mindur', 0, v) for v in
         [None] + list(range(0, n + 2)) + [-1]]
    o += [('mask', 0, x) for x in mb]
    o += [('and', 0, x) for x in (mb[:: 3] if small else mb)]
    o += [('or', 0, x) for x in (mb[:: 3] if small else mb)]
    o += [('reset', 0), ('inv', 0), ('append', 0, 0)]
    o += [('dur', 0, d, 1, a) for d in range(1, n + 1) for a in (True, False)]
    o += [('ss', 0, s, t) for s in mb[1::3] for t in mb[::3]]
    o += [('ss', 0, mb[-1], mb[1], False)]
    o += [('data', 0, ((0, ('i',) + tuple(range(n, 2 * n))),)),
          ('data', 0, ((0, ('f',) + ('nan',) * n),))]
    o += [('bad', 0, 'mindur'), ('bad', 0, 'mask'), ('bad', 0, 'del mindur')]
    return o


def hist(R, n, depth, shard, nshards, small):
    sp = spec(n)
    o = ops(n, small)
    for idx, (h, sz) in enumerate(pm.model_bfs_sized(sp, o, depth - 1)):
        if idx % nshards != shard:
            continue
        for op in o:
            if pm.fits(op, sz):
                R.do(pm.history, sp, h + (op,), True)
                R.do(pm.history, sp, h + (op,), False)


def seqs(R, n, depth, shard, nshards):
    """Persistent duration: set, then every sequence of mask updates."""
    sp = spec(n)
    o = ([('mindur', 0, v) for v in (None, 1, 2, n)] +
         [('mask', 0, x) for x in bits(n)[2::3]] +
         [('reset', 0), ('inv', 0), ('or', 0, bits(n)[1]),
          ('and', 0, bits(n)[-2]), ('dur', 0, 2, 1, False),
          ('append', 0, 0), ('ss', 0, bits(n)[-1], bits(n)[2])])
    for idx, h in enumerate(itertools.product(o, repeat=depth)):
        if idx % nshards == shard and pm.seq_fits(sp, h):
            R.do(pm.history, sp, h, True)
            R.do(pm.history, sp, h, False)


RATES = (1, 2, 3, 5, 7, 10, 12.5, 25, 30, 50, 60, 100, 128, 0.1, 0.25, 9.6,
         1000)


def product_case(R, d, sr):
    """Runs just shorter and just longer than the exact product."""
    want = Fraction(str(d)) * Fraction(str(sr))
    f = int(want)
    lens = [k for k in range(max(1, f - 2), f + 4)]
    mask = []
    for k in lens:
        mask += [False] + [True] * k
    n = len(mask)
    for atleast in (True, False):
        p = ChannelPack({0: np.zeros(n)})
        p.mask = np.array(mask)
        got = p.duration(d, sr, atleast)
        expect(np.array_equal(got, p.mask), 'duration(%r, %r): returned mask',
               d, sr)
        kept = [sl.stop - sl.start for sl in bp_runs(p.mask)]
        same(kept, [k for k in lens if (k >= want if atleast else k <= want)],
             'duration(%r, %r, %r): lengths of the runs kept' % (
                 d, sr, atleast))
        same([len(p(0, part=i)) for i in p.parts()], kept, 'parts')
        R.step()
    R.state((d, sr))
    return (want.denominator == 1, f)


def bp_runs(mask):
    return [slice(a, b) for a, b in zip(*bp.runs(mask))]


def products(R, hi, div, shard, nshards):
    for i, (k, sr) in enumerate(itertools.product(range(hi), RATES)):
        if i % nshards == shard and k * sr <= 20000 * div:
            R.do(product_case, k / div, sr)


WALK = [('mask', 'tf'), ('mask', 'b5'), ('mask', 'grow'), ('and', 'ttf'),
        ('or', 'b16'), ('inv',), ('reset',), ('dur', 2), ('dur', 5, 2),
        ('dur', 3, 1, False), ('dur', 'half', 1, False), ('mindur', 1),
        ('mindur', 3), ('mindur', 'n'), ('mindur', None),
        ('ss', 'first', 'b5'), ('append',), ('data',)]


def sizes(R, ns, pats, codes, shard, nshards):
    i = 0
    for n in ns:
        for pat in pats:
            for c in codes:
                for h in ((('mask', pat), ('dur', c)),
                          (('mask', pat), ('dur', c, 1, False)),
                          (('mask', pat), ('mindur', c)),
                          (('mindur', c), ('mask', pat))):
                    i += 1
                    if i % nshards == shard:
                        R.do(bp.history, n, h, 1)


def walks(R, ns, order, shard, nshards):
    walk = bp.debruijn(WALK, order)
    for i, n in enumerate(ns):
        if i % nshards == shard:
            R.do(bp.history, n, walk, 1)


def bounds(tier):
    return ('quick: all masks n<=7 x all requests 0..n+1 x min/max; BFS over '
            'histories depth 3 n=3; all sequences length 3 of 14 ops; 22 '
            'patterns x 12 requests on 8 sizes to 1025, 3 x 3 on 4 sizes to '
            '100001; one history with every pair of 18 operations; durations '
            'of 0 to 1.5 in steps of 0.01 x 17 samplerates'
            if tier == 'quick' else
            'thorough: all masks n<=10; BFS depth 4 n=3, depth 3 n=4; all '
            'sequences length 4 n=3, length 3 n=4; patterns x requests on 80 '
            'sizes to 100001; every triple in one history; durations of 0 to '
            '20 in steps of 0.01 and 0 to 5 in steps of 0.001 x 17 '
            'samplerates')


def tasks(tier):
    q = tier == 'quick'
    codes = [2, 3, 5, 6, 16, 17, 255, 256, 257, 'half', 'n', 'n+1']
    t = [('products', (150 if q else 2000, 100, s, 8)) for s in range(8)]
    if not q:
        t += [('products', (5000, 1000, s, 16)) for s in range(16)]
    t += [('sizes', ([13, 40, 64, 65, 129, 256, 257, 1025] if q
                    else bp.SMALL[8:] + bp.EDGE, bp.PATS, codes, s, 16))
         for s in range(16)]
    t += [('sizes', ([4097, 32769, 65537, 100001] if q else bp.LARGE,
                     ['b5', 'grow', 'half1'] if q else bp.PATS,
                     [6, 100, 10001] if q else codes, s, 16))
          for s in range(16)]
    t += [('walks', ((5, 8, 17, 40), 2, s, 4)) for s in range(4)]
    if not q:
        t += [('walks', ((3, 6, 11, 16, 33, 257), 3, s, 6))
              for s in range(6)]
    if q:
        t += [('singles', (n, s, 4)) for n in range(0, 8) for s in range(4)]
        t += [('hist', (3, 3, s, 24, True)) for s in range(24)]
        t += [('seqs', (3, 3, s, 16)) for s in range(16)]
    else:
        t += [('singles', (n, s, 16)) for n in range(0, 11) for s in range(16)]
        t += [('hist', (3, 4, s, 64, False)) for s in range(64)]
        t += [('hist', (4, 3, s, 64, False)) for s in range(64)]
        t += [('seqs', (3, 4, s, 32)) for s in range(32)]
        t += [('seqs', (4, 3, s, 32)) for s in range(32)]
    return t
