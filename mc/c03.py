"""C03: start/stop triggering is a latch dominated by stop."""
import itertools
import numpy as np
from core import expect, same
import packmodel as pm
import bigpack as bp
from packmodel import bits, bl, b, latch

PROP = 'C03'
ASSUMPTIONS = ['when applied, the sequences are as long as the mask']

TRUE = {'bool': True, 'int': 2, 'neg': -1, 'str': 'x', 'obj': [0],
        'npint': np.int64(3), 'float': 0.5, 'nan': float('nan')}
FALSE = {'bool': False, 'int': 0, 'neg': 0, 'str': '', 'obj': None,
         'npint': np.int64(0), 'float': 0.0, 'nan': 0.0}


def spec(n):
    return [({0: np.arange(n), 1: np.arange(n) * 0.5}, {0: 'x', 1: 'y'})]


def pair(R, start, stop, container):
    """Result and its effect on every prior mask."""
    s, t = bl(start), bl(stop)
    want = latch(s, t)
    n = min(len(s), len(t))
    kind, el = container
    if kind == 'array':
        mkc = lambda x: np.array(x, dtype=bool)
    elif kind == 'list':
        mkc = lambda x: [TRUE[el] if v else FALSE[el] for v in x]
    elif kind == 'tuple':
        mkc = lambda x: tuple(TRUE[el] if v else FALSE[el] for v in x)
    elif kind == 'iter':
        mkc = lambda x: iter([TRUE[el] if v else FALSE[el] for v in x])
    elif kind == 'intarray':
        mkc = lambda x: np.array([5 if v else 0 for v in x], dtype=int)
    w = pm.World(spec(n))
    ret = w.p[0].startstop(mkc(s), mkc(t), apply=False)
    expect(isinstance(ret, np.ndarray) and ret.dtype == bool,
           'result is not a bool array: %r', ret)
    same(ret.tolist(), want, 'startstop(%s, %s)' % (start, stop))
    w.check()
    R.step()
    if len(s) == len(t):
        for mb in bits(n) if n <= 5 else bits(n)[::7]:
            w = pm.World(spec(n))
            w.step(('mask', 0, mb))
            ret = w.p[0].startstop(mkc(s), mkc(t))
            same(ret.tolist(), want, 'startstop(%s, %s)' % (start, stop))
            w.m[0].setmask([x and y for x, y in zip(w.m[0].mask, want)])
            w.check(reads=False, where='mask %s: ' % mb)
            # idempotent, and the result is not tied to the mask
            ret2 = w.p[0].startstop(mkc(s), mkc(t), True)
            same(ret2.tolist(), want, 'second startstop')
            w.check(reads=False, where='mask %s twice: ' % mb)
            same(ret.tolist(), want, 'first result after second call')
            w.p[0].duration(n + 1)
            same([ret.tolist(), ret2.tolist()], [want, want],
                 'results after duration')
            R.step(3)
    R.state((start, stop, container))
    return (tuple(want), n)


def pairs(R, n1, n2, containers, shard, nshards):
    for i, (s, t) in enumerate(itertools.product(bits(n1), bits(n2))):
        if i % nshards == shard:
            for c in containers:
                R.do(pair, s, t, c)


def hist(R, n, depth, shard, nshards):
    sp = ((((0, ('i',) + tuple(range(n))),), ((0, 'x'),)),)
    mb = bits(n)
    o = [('ss', 0, s, t) for s in mb[1:] for t in mb]
    o += [('ss', 0, mb[-1], t, False) for t in mb[:2]]
    o += [('mask', 0, x) for x in mb] + [('reset', 0)]
    o += [('mindur', 0, v) for v in (None, 2)]
    for idx, (h, sz) in enumerate(pm.model_bfs_sized(sp, o, depth - 1)):
        if idx % nshards != shard:
            continue
        for op in o:
            R.do(pm.history, sp, h + (op,), True)
            R.do(pm.history, sp, h + (op,), False)


def sizes(R, ns, starts, stops, masks, shard, nshards):
    i = 0
    for n in ns:
        for s in starts:
            for t in stops:
                for mk in masks:
                    i += 1
                    if i % nshards == shard:
                        R.do(bp.history, n, (('mask', mk), ('ss', s, t)), 0)


APPLY = [True, False, 1, 0, np.True_, np.False_]


def applies(R):
    for a in APPLY:
        for n in range(4):
            for s in bits(n):
                for t in bits(n):
                    R.do(apply_case, n, s, t, a)


def apply_case(R, n, s, t, a):
    """The apply argument as any true or false value."""
    w = pm.World(spec(n))
    want = latch(bl(s), bl(t))
    got = w.p[0].startstop(b(s), b(t), apply=a)
    same(got.tolist(), want, 'startstop(%s, %s, apply=%r)' % (s, t, a))
    if a:
        w.m[0].setmask([x and y for x, y in zip(w.m[0].mask, want)])
    w.check(reads=False)
    R.step()
    return (tuple(want), bool(a))


WALK = [('ss', 'first', 'last'), ('ss', 'first', 'mid'), ('ss', 'b5', 'tf'),
        ('ss', 'ft', 'b5'), ('ss', 'grow', 'thue', False),
        ('ss', 'all', 'none'), ('ss', 'none', 'all', False),
        ('mask', 'grow'), ('mask', 'all'), ('reset',), ('mindur', 2),
        ('mindur', None), ('append',), ('data',)]


def walks(R, ns, order, shard, nshards):
    walk = bp.debruijn(WALK, order)
    for i, n in enumerate(ns):
        if i % nshards == shard:
            R.do(bp.history, n, walk, 1)


CONT = [('array', 'bool'), ('intarray', 'int')] + [
    (k, e) for k in ('list', 'tuple') for e in sorted(TRUE)] + [
    ('iter', 'bool')]


def bounds(tier):
    return ('quick: all pairs of start/stop sequences of lengths 0..3 (all '
            'length combinations, 19 containers/element kinds), 4..5 arrays, '
            'each on all masks; BFS over histories depth 3 n=2, depth 2 n=3; '
            'all 22x22 patterns on 6 sizes to 1025, 3x4 on 4 sizes to '
            '100001; every pair of 14 operations in one history'
            if tier == 'quick' else
            'thorough: all containers to length 4, arrays to length 7; '
            'histories depth 3 n=3')


def tasks(tier):
    q = tier == 'quick'
    t = [('applies', ())]
    t += [('sizes', ([17, 40, 65, 129, 257, 1025] if q
                     else bp.SMALL[8:] + bp.EDGE, bp.PATS, bp.PATS,
                     ['all', 'thue'], s, 16)) for s in range(16)]
    t += [('sizes', ([4097, 32769, 65537, 100001] if q else bp.LARGE,
                     ['first', 'b5', 'half2'], ['last', 'b256', 'none',
                                                'notfirst'],
                     ['all'], s, 16)) for s in range(16)]
    t += [('walks', ((5, 8, 17, 40), 2, s, 4)) for s in range(4)]
    if not q:
        t += [('walks', ((3, 6, 11, 33, 257), 3, s, 5)) for s in range(5)]
    top = 3 if tier == 'quick' else 4
    for n in range(0, top + 1):
        t += [('pairs', (n, n, CONT, s, 4)) for s in range(4)]
    for n1 in range(0, top + 2):
        for n2 in range(0, top + 2):
            if n1 != n2:
                t.append(('pairs', (n1, n2, CONT[:4], 0, 1)))
    A = CONT[:1]
    for n in range(top + 1, 6 if tier == 'quick' else 8):
        t += [('pairs', (n, n, A, s, 32)) for s in range(32)]
    if tier == 'quick':
        t += [('hist', (2, 3, s, 8)) for s in range(8)]
        t += [('hist', (3, 2, s, 8)) for s in range(8)]
    else:
        t += [('hist', (3, 3, s, 32)) for s in range(32)]
    return t
