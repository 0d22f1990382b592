"""C04: a fresh or reset mask is all True, boolean, as long as the data."""
import itertools
import numpy as np
from core import expect, same
import packmodel as pm
import bigpack as bp
from packmodel import bits
from channelpack import ChannelPack

PROP = 'C04'
ASSUMPTIONS = ['keys are integers and values flat sequences']


def checkmask(p, n, mindur, what):
    expect(isinstance(p.mask, np.ndarray), '%s: not an array', what)
    expect(p.mask.dtype == bool, '%s: mask dtype %s', what, p.mask.dtype)
    want = pm.durfilter([True] * n, mindur) if mindur is not None \
        else [True] * n
    same(p.mask.tolist(), want, what + ': mask')
    same(list(p.parts()), [0] if any(want) else [], what + ': parts')
    # the mask can be combined further
    (p.mask & np.ones(n, dtype=bool)).tolist()


def fresh(R, dt, n, keys, aslist, mindur):
    """All routes to a new mask for one data dict."""
    def mkdata(nn=n):
        d = {}
        for i, k in enumerate(keys):
            a = pm.mk((dt if i == 0 else 'int', nn))
            d[k] = list(a) if aslist else a
        return d
    low = min(keys) if keys else None
    first = keys[0] if keys else None
    p = ChannelPack(mkdata())
    length = n if keys else 0
    checkmask(p, length, None, 'construction')
    p.mask_reset()
    checkmask(p, length, None, 'reset')
    # from another state: other data, then this
    q = ChannelPack({0: [1, 2], 7: [3, 4]}, {0: 'a'})
    q.mask = np.array([True, False])
    q.data = mkdata()
    checkmask(q, length, None, 'data assignment')
    # the data of another pack
    q = ChannelPack({0: [1, 2], 7: [3, 4]}, {0: 'a'})
    q.mask = np.array([False, True])
    q.data = p.data
    checkmask(q, length, None, "assignment of another pack's data")
    q = ChannelPack(p.data)
    checkmask(q, length, None, "construction from another pack's data")
    # append
    q = ChannelPack()
    q.append_pack(p)
    checkmask(q, length, None, 'append to empty')
    r = ChannelPack(mkdata())
    if length:
        r.mask = np.zeros(n, dtype=bool)
    r.append_pack(ChannelPack(mkdata()))
    checkmask(r, 2 * length, None, 'append')
    r.append_pack(ChannelPack())
    checkmask(r, 2 * length, None, 'append of empty')
    # with an active minimum duration
    if mindur is not None:
        s = ChannelPack({0: [1, 2, 3]})
        s.mindur = mindur
        checkmask(s, 3, mindur, 'setting mindur')
        s.data = mkdata()
        checkmask(s, length, mindur, 'data assignment with mindur')
        s.append_pack(ChannelPack(mkdata()))
        checkmask(s, 2 * length, mindur, 'append with mindur')
        s.mindur = None
        s.mask_reset()
        checkmask(s, 2 * length, None, 'reset after mindur cleared')
    R.step(9)
    R.state((dt, n, keys, aslist, mindur))
    return (length, mindur, dt)


def freshes(R, nmax, shard, nshards):
    i = 0
    for n in range(0, nmax + 1):
        for keys in ((0,), (3,), (0, 1), (1, 0), (5, 2, 9), (-1, 0), ()):
            for dt in sorted(pm.DT) if keys else ('int',):
                for aslist in (False, True):
                    if aslist and n == 0 and dt in ('datetime64', 'nat'):
                        continue
                    for mindur in [None] + list(range(0, 2 * n + 2)):
                        i += 1
                        if i % nshards == shard:
                            R.do(fresh, dt, n, keys, aslist, mindur)


def unequal(R, lens, keys):
    """Size follows the channel with the lowest key."""
    d = {k: np.arange(n) for k, n in zip(keys, lens)}
    p = ChannelPack(d)
    n = lens[keys.index(min(keys))]
    checkmask(p, n, None, 'construction')
    p.data = {k: list(v) for k, v in d.items()}
    checkmask(p, n, None, 'assignment')
    p.append_pack(ChannelPack(d))
    checkmask(p, 2 * n, None, 'append')
    p.mask_reset()
    checkmask(p, 2 * n, None, 'reset')
    R.state((lens, keys))
    return (lens, keys)


def unequals(R, nmax):
    for ks in ((2, 10), (-3, 2), (9, 10, 100), (-10, -9), (-1, 5, 12),
               (255, 256), (1000, 99), (2 ** 31, 2 ** 31 - 1), (-2, 1, 3)):
        for keys in itertools.permutations(ks):
            for lens in itertools.product((0, 1, 3), repeat=len(ks)):
                R.do(unequal, lens, keys)
    for keys in itertools.permutations((0, 1, 4)):
        for lens in itertools.product(range(nmax + 1), repeat=3):
            R.do(unequal, lens, keys)


def hist(R, n, depth, shard, nshards):
    sp = ((((0, ('f',) + ('nan',) * n),), ((0, 'x'),)),
          (((0, ('o',) + (None,) * n),), ((0, 'y'),)))
    o = [('mask', 0, bits(n)[0]), ('mask', 0, bits(n)[1]),
         ('mask', 1, bits(n)[0]), ('reset', 0), ('datafrom', 0, 1),
         ('datafrom', 1, 0), ('data', 0, ()), ('data', 0, ((2, ('f', 'nan')),)),
         ('data', 1, ((0, ('objnone', n + 1)),)), ('append', 0, 1),
         ('append', 1, 0), ('mindur', 0, 2), ('mindur', 0, None),
         ('mindur', 1, n + 1), ('construct', 0, 1), ('construct', 1, 0),
         ('datafrom', 0, 0), ('append', 0, 0)]
    for idx, h in enumerate(itertools.product(o, repeat=depth)):
        if idx % nshards == shard and pm.seq_fits(sp, h):
            R.do(pm.history, sp, h, False)


EDITS = [('set', -1, 1), ('set', 0, 3), ('set', 2, 2), ('set', 9, 4),
         ('update', -3, 2), ('update', 1, 0), ('setdefault', -2, 3),
         ('ior', 0, 1), ('del', -1), ('pop', 2), ('del', 5), ('popitem',),
         ('clear',), ('append',), ('mask',), ('data',)]


def edit_case(R, seq, each):
    """The data dict is edited in place between resets."""
    d = {2: [1, 2], 5: [1, 2, 3]}
    p = ChannelPack(d)
    for op in seq:
        if op[0] == 'set':
            p.data[op[1]] = d[op[1]] = [0] * op[2]
        elif op[0] == 'update':
            p.data.update({op[1]: [7] * op[2]})
            d[op[1]] = [7] * op[2]
        elif op[0] == 'setdefault':
            p.data.setdefault(op[1], [5] * op[2])
            d.setdefault(op[1], [5] * op[2])
        elif op[0] == 'ior':
            p.data.update(((op[1], ['t'] * op[2]),))
            d[op[1]] = ['t'] * op[2]
        elif op[0] in ('del', 'pop'):
            if op[1] not in d:
                return None
            if op[0] == 'del':
                del p.data[op[1]]
            else:
                p.data.pop(op[1])
            del d[op[1]]
        elif op[0] == 'popitem':
            if not d:
                return None
            p.data.popitem()
            d.popitem()
        elif op[0] == 'clear':
            p.data.clear()
            d.clear()
        elif op[0] == 'append':
            p.append_pack(p)
            d = {k: v + v for k, v in d.items()}
        elif op[0] == 'mask':
            p.mask = np.zeros(len(p.mask), dtype=bool)
        elif op[0] == 'data':
            p.data = dict(d)
        if each:
            p.mask_reset()
        if each or op[0] in ('append', 'data'):
            checkmask(p, len(d[min(d)]) if d else 0, None, repr(op))
        R.step()
    p.mask_reset()
    checkmask(p, len(d[min(d)]) if d else 0, None, 'reset after %r' % (seq,))
    R.state(tuple((k, len(v)) for k, v in d.items()))
    return (sorted((k, len(v)) for k, v in d.items()), each)


def edits(R, depth, shard, nshards):
    i = 0
    for n in range(1, depth + 1):
        for seq in itertools.product(EDITS, repeat=n):
            i += 1
            if i % nshards == shard:
                for each in (False, True):
                    R.do(edit_case, seq, each)


def sizecase(R, n, nkeys, pat, mindur):
    """A reset, an assignment and an append on a pack of n rows whose mask
    is pat."""
    def mkdata(k):
        return {7 * i % nkeys: np.arange(k) + i for i in range(nkeys)}
    p = ChannelPack(mkdata(n))
    if mindur is not None:
        p.mindur = mindur

    def ck(m, what):
        want = np.ones(m, dtype=bool)
        if mindur is not None and mindur > m:
            want[:] = False
        expect(isinstance(p.mask, np.ndarray) and p.mask.dtype == bool
               and np.array_equal(p.mask, want),
               '%s of %d rows: mask differs (length %d, %d true)', what, m,
               len(p.mask), int(p.mask.sum()))
        same(list(p.parts()), [0] if want.any() else [], what + ': parts')
    ck(n, 'construction')
    for what in ('reset', 'same data', 'new data of the same length',
                 'shorter', 'back', 'longer', 'back', 'append'):
        if pat != 'all':
            p.mask = bp.PAT[pat](len(p.mask))
        if what == 'reset':
            p.mask_reset()
            ck(n, what)
        elif what == 'same data':
            p.data = p.data
            ck(n, what)
        elif what in ('new data of the same length', 'back'):
            p.data = mkdata(n)
            ck(n, what)
        elif what == 'shorter':
            p.data = mkdata(n // 2)
            ck(n // 2, what)
        elif what == 'longer':
            p.data = mkdata(n + 1)
            ck(n + 1, what)
        else:
            p.append_pack(ChannelPack(mkdata(n)))
            ck(2 * n, what)
        R.step()
    R.state((n, nkeys, pat, mindur))
    return (n, mindur)


def sizes(R, ns, nkeys, pats, shard, nshards):
    i = 0
    for n in ns:
        for k in nkeys:
            for pat in pats:
                for md in (None, 1, n, n + 1):
                    i += 1
                    if i % nshards == shard:
                        R.do(sizecase, n, k, pat, md)


def bounds(tier):
    return ('quick: 21 data types x n<=3 x 7 key sets x array/list x mindur '
            '0..2n+1 x 11 routes; unequal lengths <=3, on 10 key sets; 88 '
            'sizes to 100001 and up to 1001 keys; all histories of '
            'length 3 over 18 operations on two packs; all sequences of <=3 of '
            '16 edits of the data dict in place between resets'
            if tier == 'quick' else
            'thorough: n<=6; unequal lengths <=4; histories of length 4; 4 edits')


def tasks(tier):
    q = tier == 'quick'
    t = [('freshes', (3 if q else 6, s, 16)) for s in range(16)]
    t += [('sizes', (bp.SMALL + bp.EDGE, (1, 3), ['none', 'all', 'first',
                                                 'last', 'tf'], s, 8))
          for s in range(8)]
    t += [('sizes', (bp.LARGE, (1,), ['none', 'last'], s, 8))
          for s in range(8)]
    t += [('sizes', ((5,), (5, 9, 20, 26, 64, 128, 257, 1001), ['none'], 0,
                     1))]
    t += [('unequals', (3 if q else 4,))]
    t += [('edits', (3 if q else 4, s, 8)) for s in range(8)]
    t += [('hist', (2, 1, 0, 1)), ('hist', (2, 2, 0, 1))]
    t += [('hist', (2, 3 if q else 4, s, 32)) for s in range(32)]
    return t
