"""C06: packs are independent of each other (no shared mutable state)."""
import itertools
from core import expect, same
import packmodel as pm
from packmodel import bits
from channelpack import ChannelPack

PROP = 'C06'
ASSUMPTIONS = ['elements of data arrays are not overwritten in place (arrays '
               'are shared by reference, as numpy users expect)',
               'the filenames list of one pack is not assigned to another']

SPECS = {
    2: ((((0, ('i', 1, 2)), (1, ('s', 'a', 'b'))), ((0, 'x'), (1, 'y'))),
        ((), ()),
        (((0, ('i', 5, 6)), (1, ('s', 'e', 'f'))), ((0, 'u'), (1, 'v')))),
}

TRANSFER = [('append', 1, 0), ('append', 2, 0), ('append', 0, 1),
            ('datafrom', 1, 0), ('datafrom', 2, 0), ('namesfrom', 1, 0),
            ('namesfrom', 2, 0), ('maskfrom', 2, 0), ('maskfrom', 0, 2),
            ('maskfrom', 1, 0), ('construct', 1, 0), ('construct', 2, 0),
            ('datafrom', 0, 0), ('namesfrom', 0, 0), ('maskfrom', 0, 0)]


def LOCAL(i):
    return [('mask', i, '10'), ('and', i, '01'), ('inv', i), ('dur', i, 2),
            ('dur', i, 1, 1, False), ('mindur', i, 2), ('ss', i, '11', '01'),
            ('reset', i), ('setitem', i, 0, ('i', 8, 9)),
            ('setitem', i, 4, ('f', 0.5, 1.5)),
            ('delitem', i, 1), ('setname', i, 0, 'nn'), ('setname', i, 7, 'q'),
            ('clearnames', i), ('fn', i, 'file%d' % i), ('append', i, i),
            ('nof', i, 'filter'), ('prefix', i, 'p%d' % i),
            ('names', i, ((0, 'r'), (1, 's'))),
            ('data', i, ((0, ('i', 3, 4)), (1, ('s', 'p', 'q'))))]


def run(R, shape, shard, nshards):
    """Histories: pre-op(s), transfer(s), op(s) on one side - shape is a
    string over L (local op) and T (transfer)."""
    locs = LOCAL(0) + LOCAL(1) + LOCAL(2)
    alph = {'L': locs, 'T': TRANSFER,
            'l': [o for o in locs if o[0] in
                  ('dur', 'setitem', 'append', 'ss', 'setname', 'mindur')]}
    sp = SPECS[2]
    for idx, h in enumerate(itertools.product(*[alph[c] for c in shape])):
        if idx % nshards == shard and pm.seq_fits(sp, h):
            R.do(pm.history, sp, h, False)


def dictargs_case(R, op):
    """Dicts handed to a pack are copied: neither side sees the other's
    later changes."""
    import numpy as np
    d = {0: np.array([1, 2]), 1: np.array(['a', 'b'])}
    n = {0: 'x', 1: 'y'}
    p = ChannelPack(d, n)
    if op == 'caller-data':
        d[2] = np.array([5, 6])
        del d[0]
    elif op == 'caller-names':
        n[0] = 'changed'
    elif op == 'pack-append':
        p.append_pack(ChannelPack({0: [9], 1: ['z']}, {0: 'x', 1: 'y'}))
        same(sorted(d), [0, 1], 'caller dict keys')
        same(d[0].tolist(), [1, 2], 'caller array')
        return op
    elif op == 'pack-setitem':
        p.data[0] = [7, 7]
        p.names[0] = 'k'
        same(d[0].tolist(), [1, 2], 'caller array')
        same(n[0], 'x', 'caller names')
        return op
    elif op == 'attr-data':
        p = ChannelPack()
        p.data = d
        p.names = n
        d[5] = 1
        n[5] = 'w'
    same(sorted(p.data), [0, 1], 'data keys')
    same(p.data[0].tolist(), [1, 2], 'data[0]')
    same(dict(p.names), {0: 'x', 1: 'y'}, 'names')
    R.state(op)
    return op


def dictargs(R):
    for op in ('caller-data', 'caller-names', 'pack-append', 'pack-setitem',
               'attr-data'):
        R.do(dictargs_case, op)


def arrays_case(R, how, mindur, op):
    """The mask array handed in is the caller's: however it was made, a
    later operation on the pack leaves it alone, and writing into it leaves
    the pack alone."""
    import numpy as np
    base = np.array([True, True, False, True, True, False, True, True])
    n = 4
    if how == 'plain':
        a = base[:n].copy()
    elif how == 'slice':
        a = base[:n]
    elif how == 'strided':
        a = base[::2]
    elif how == 'reversed':
        a = base[n - 1::-1]
    elif how == 'reshaped':
        a = base.reshape(2, 4)[1]
    elif how == 'column':
        a = base.reshape(4, 2)[:, 0]
    elif how == 'view':
        a = base.view(np.int8)[:n].view(bool)
    elif how == 'frombuffer':
        a = np.frombuffer(bytearray([1, 1, 0, 1]), dtype=bool)
    elif how == 'subclass':
        class Sub(np.ndarray):
            pass
        a = base[:n].copy().view(Sub)
    elif how == 'fortran':
        a = np.asfortranarray(base.reshape(2, 4))[0]
    elif how == 'broadcast':
        a = np.broadcast_to(np.array(True), (n,))
    elif how == 'readonly':
        a = base[:n].copy()
        a.flags.writeable = False
    elif how == 'othermask':
        q = ChannelPack({0: list(range(n))})
        q.mask = base[:n]
        a = q.mask
    elif how == 'ownmask':
        a = None
    p = ChannelPack({0: list(range(n)), 1: ['a', 'b', 'c', 'd']})
    if mindur:
        p.mindur = mindur
    if a is None:
        p.mask = base[:n]
        a = p.mask
        p.mask = a
    else:
        p.mask = a
    given, basegiven = a.tolist(), base.tolist()
    m = pm.durfilter(given, mindur) if mindur else list(given)
    same(p.mask.tolist(), m, 'mask')
    if op == 'dur':
        p.duration(2)
        m = pm.durfilter(m, 2)
    elif op == 'maxdur':
        p.duration(1, mindur=False)
        m = pm.durfilter(m, 1, False)
    elif op == 'mindur':
        p.mindur = 4
        m = pm.durfilter(m, 4)
    elif op == 'ss':
        p.startstop([0, 1, 0, 0], [0, 0, 1, 0])
        m = [x and y for x, y in zip(m, [False, True, False, False])]
        if mindur:
            m = pm.durfilter(m, mindur)
    elif op == 'and':
        p.mask &= np.array([True, False, True, True])
        m = [x and y for x, y in zip(m, [True, False, True, True])]
        if mindur:
            m = pm.durfilter(m, mindur)
    elif op == 'reset':
        p.mask_reset()
        m = [True] * n
    elif op == 'write':
        if not a.flags.writeable:
            return None
        a[0] = not a[0]
        given = a.tolist()
        basegiven = base.tolist()
    same(a.tolist(), given, 'array given (%s) after %s' % (how, op))
    same(base.tolist(), basegiven, 'base of the array given (%s)' % how)
    same(p.mask.tolist(), m, 'mask after %s on %s' % (op, how))
    same(list(p.parts()), list(range(len(pm.runs(m)))), 'parts')
    same(p(0, nof='filter').tolist(), [i for i in range(n) if m[i]],
         'filtered')
    R.step()
    R.state((how, mindur, op))
    return (how, mindur, op)


def arrays(R):
    for how in ('plain', 'slice', 'strided', 'reversed', 'reshaped',
                'column', 'view', 'frombuffer', 'subclass', 'fortran',
                'broadcast', 'readonly', 'othermask', 'ownmask'):
        for md in (None, 1, 2):
            for op in ('dur', 'maxdur', 'mindur', 'ss', 'and', 'reset',
                       'write'):
                R.do(arrays_case, how, md, op)


def dicts_case(R, which, how, content, side, later):
    """A dict handed over in every way, empty or not: afterwards the two
    sides are independent."""
    import numpy as np
    good = {0: np.array([1, 2]), 3: np.array([5, 6])} if which == 'data' \
        else {0: 'x', 3: 'y'}
    src = {k: good[k] for k in content}
    q = ChannelPack(src) if which == 'data' else ChannelPack(None, src)
    other = {'dict': src, 'packdict': getattr(q, which),
             'copy': getattr(q, which).copy()}[how.split()[0]]
    p = ChannelPack({0: [9, 9]}, {0: 'z'})
    if how.endswith('assign'):
        setattr(p, which, other)
    elif how.endswith('update'):
        getattr(p, which).clear()
        getattr(p, which).update(other)
    elif how.endswith('append'):
        p = ChannelPack()
        p.append_pack(q)
        other = getattr(q, which)
    else:
        p = ChannelPack(other) if which == 'data' else \
            ChannelPack(None, other)
    mine = getattr(p, which)
    new = np.array([7, 8]) if which == 'data' else 'new'

    def norm(d):
        return {k: (np.asarray(v).tolist() if which == 'data' else v)
                for k, v in d.items()}
    want = norm(src)
    same(norm(mine), want, 'taken over')
    a, b = (mine, other) if side == 'mine' else (other, mine)
    if later == 'set':
        a[5] = new
    elif later == 'setold':
        a[0] = new
    elif later == 'update':
        a.update({0: new, 6: new})
    elif later == 'setdefault':
        a.setdefault(8, new)
    elif later == 'clear':
        a[5] = new
        a.clear()
    elif later == 'pop':
        a.pop(0, None)
    elif later == 'ior':
        a |= {0: new}
    same(norm(b), want, '%s of %r by %s: %s on the %s side changed the '
         'other' % (which, sorted(content), how, later, side))
    same(norm(a) == want, later == 'pop' and 0 not in content
         or later == 'clear' and not content, 'the change took effect')
    if how.startswith('packdict'):
        q2 = getattr(q, which)
        same(norm(q2), want if side == 'mine' else norm(a), 'source pack')
    R.step()
    R.state((which, how, content, side, later))
    return (which, how, content, side, later)


def dicts(R):
    for which in ('data', 'names'):
        for how in [a + ' ' + b for a in ('dict', 'packdict', 'copy')
                    for b in ('assign', 'construct', 'update')] + \
                ['packdict append']:
            for content in ((), (0,), (0, 3)):
                for side in ('mine', 'other'):
                    for later in ('set', 'setold', 'update', 'setdefault',
                                  'clear', 'pop', 'ior'):
                        R.do(dicts_case, which, how, content, side, later)


def bounds(tier):
    return ('quick: 3 packs; all histories of shapes T, TL, LT, TLl, LTL, '
            'TTl with 15 transfers and 60 local operations; 14 '
            'ways to make a mask array x 7 operations x mindur; 10 ways to '
            'hand over a dict x 7 later changes on either side'
            if tier == 'quick' else
            'thorough: additionally TLL, TTL, LTLl, TTTl, TLTl')


def tasks(tier):
    t = [('dictargs', ()), ('arrays', ()), ('dicts', ())]
    shapes = [('T', 1), ('TL', 2), ('LT', 2), ('TLl', 16), ('LTl', 16),
              ('TTl', 8)]
    if tier != 'quick':
        shapes += [('TLL', 32), ('LTL', 32), ('TTL', 32), ('TTTl', 64),
                   ('TLTl', 64), ('LTLl', 64)]
    for s, k in shapes:
        t += [('run', (s, i, k)) for i in range(k)]
    return t
