"""C28: a refused operation raises the documented error and changes
nothing."""
import itertools
import numpy as np
from core import Mismatch, same
import packmodel as pm
from packmodel import bits

PROP = 'C28'
ASSUMPTIONS = ['masks have the length of the data']

SPECS = [(((0, ('i', 1, 2, 3)), (1, ('s', 'a', 'b', 'c'))),
          ((0, 'x one'), (1, 'y'))),
         (((0, ('i', 4)), (2, ('s', 'd'))), ((0, 'x'), (2, 'z')))]
EMPTY = [((), ()), SPECS[1]]

GOOD = ([('mask', 0, m) for m in bits(3)] +
        [('mindur', 0, 2), ('mindur', 0, None), ('nof', 0, 'nan'),
         ('nof', 0, 'filter'), ('dur', 0, 2), ('fn', 0, 'file'),
         ('setname', 0, 0, 'an other'), ('reset', 0),
         ('ss', 0, '010', '001')])


# name -> (exceptions, function(pack, other pack))
BAD = {}


def bad(exc, name, f):
    BAD[name] = (exc, f)


def setter(attr, value):
    return lambda p, q: setattr(p, attr, value)


for v in ('ignore', 'bogus', '', 0, True, ['nan'], b'nan', 'NAN'):
    bad(ValueError, 'nof = %r' % (v,), setter('nof', v))
for v in ([True] * 3, (True, False, True), None, 1, 'TFT'):
    bad(TypeError, 'mask = %r' % (v,), setter('mask', v))
for v in (2.0, '2', [2], b'2', 0.0):
    bad(TypeError, 'mindur = %r' % (v,), setter('mindur', v))
for v in (None, 5, b'x', ['x']):
    bad(TypeError, 'fn = %r' % (v,), setter('fn', v))
    bad(TypeError, 'FALLBACK_PREFIX = %r' % (v,),
        setter('FALLBACK_PREFIX', v))
for v in ({'a': [1]}, {0: [1], 'a': [2]}, {1.5: [1]}, {None: [1]}, 5,
          [(0, [1]), ('a', [2])]):
    bad(TypeError, 'data = %r' % (v,), setter('data', v))
for v in ({0: 1}, {0: [[1]]}, {0: [1, 2, 3], 1: [[1], [2]]}, {0: None}):
    bad(ValueError, 'data = %r' % (v,), setter('data', v))
for v in ({'a': 'b'}, {0: 'a', 'b': 'c'}, {0.5: 'a'}, 7):
    bad(TypeError, 'names = %r' % (v,), setter('names', v))
for a in ('data', 'names', 'fn', 'filenames', 'nof', 'mindur',
          'FALLBACK_PREFIX'):
    bad(AttributeError, 'del ' + a, lambda p, q, a=a: delattr(p, a))
bad(TypeError, 'data["k"] = ', lambda p, q: p.data.__setitem__('k', [1]))
bad(ValueError, 'data[5] = 3', lambda p, q: p.data.__setitem__(5, 3))
bad(ValueError, 'data[0] = nested',
    lambda p, q: p.data.__setitem__(0, [[1, 2], [3, 4]]))
bad(TypeError, 'names["k"] = ', lambda p, q: p.names.__setitem__('k', 'v'))
bad(ValueError, 'append', lambda p, q: p.append_pack(q))
bad(ValueError, 'append to', lambda p, q: q.append_pack(p))
bad(KeyError, 'call unknown name', lambda p, q: p('nope'))
bad(KeyError, 'call unknown key', lambda p, q: p(17))
bad(KeyError, 'call unknown fallback', lambda p, q: p('ch17'))
bad(IndexError, 'call part', lambda p, q: p(0, part=9))
bad(KeyError, 'name unknown', lambda p, q: p.name('nope'))
bad(TypeError, 'name fallback', lambda p, q: p.name(0, fallback='ch'))
bad(TypeError, 'name firstwordonly', lambda p, q: p.name(0,
                                                         firstwordonly=3))
bad(ValueError, 'name regex', lambda p, q: p.name(0, firstwordonly='[0-9]+'))
bad(ValueError, 'records', lambda p, q: list(p.records()))
bad(IndexError, 'records part', lambda p, q: list(p.records(
    part=9, fallback=True)))

# refused without a documented kind of error
ANY = Exception
bad(ANY, 'mask 0-d', setter('mask', np.array(True)))
bad(ANY, 'mask 0-d text', setter('mask', np.array('')))
bad(ANY, 'mask 2-d', setter('mask', np.array([[True, False, True]] * 3)))
bad(ANY, 'mask 3x2', setter('mask', np.array([[False, True]] * 3)))
for v in (None, 'x', [2], 'nan', {}):
    bad(ANY, 'duration(%r)' % (v,), lambda p, q, v=v: p.duration(v))
    bad(ANY, 'duration(1, %r)' % (v,), lambda p, q, v=v: p.duration(
        1.5, samplerate=v))
bad(ANY, 'duration(nan)', lambda p, q: p.duration(float('nan')))
bad(ANY, 'duration(inf)', lambda p, q: p.duration(float('inf')))
bad(ANY, 'startstop(None)', lambda p, q: p.startstop(None, [1, 0, 1]))
bad(ANY, 'startstop(1)', lambda p, q: p.startstop([1, 0, 1], 1))
bad(ANY, 'startstop long', lambda p, q: p.startstop([1] * 9, [0] * 9))
bad(ANY, 'startstop raising', lambda p, q: p.startstop(
    [1, 0, 1], [0, 0, np.array([1, 2])]))
bad(ANY, 'append None', lambda p, q: p.append_pack(None))
bad(ANY, 'append dict', lambda p, q: p.append_pack({0: [1]}))
bad(ANY, 'part of text', lambda p, q: p(0, part='x'))
bad(ANY, 'mask of list append', lambda p, q: setattr(p, 'mask', list(
    p.mask)))


def dictops(attr, good, value, exc, what):
    d = {'update': lambda x: x.update(value),
         'update pairs': lambda x: x.update(list(value.items())),
         'update iterator': lambda x: x.update(iter(value.items())),
         'update good and bad': lambda x: x.update(
             dict(list(good.items()) + list(value.items()))),
         'update pairs good and bad': lambda x: x.update(
             list(good.items()) + list(value.items())),
         'setdefault': lambda x: x.setdefault(*list(value.items())[0]),
         'merge': lambda x: x.__ior__(dict(list(good.items()) +
                                           list(value.items())))}
    for k, f in d.items():
        bad(exc, '%s %s %s' % (attr, k, what),
            lambda p, q, f=f: f(getattr(p, attr)))


dictops('data', {0: [7, 8, 9], 5: [1]}, {'k': [1]}, TypeError, 'text key')
dictops('data', {0: [7, 8, 9], 5: [1]}, {2.5: [1]}, TypeError, 'float key')
dictops('data', {0: [7, 8, 9], 5: [1]}, {6: [[1]]}, ValueError, 'nested')
dictops('data', {0: [7, 8, 9], 5: [1]}, {6: 4}, ValueError, 'number')
dictops('names', {0: 'q', 5: 'w'}, {'k': 'v'}, TypeError, 'text key')
dictops('names', {0: 'q', 5: 'w'}, {None: 'v'}, TypeError, 'None key')

NEEDDATA = {'startstop long', 'part of text', 'mask of list append', 'append',
            'append to', 'call part', 'name fallback',
            'name firstwordonly', 'name regex', 'records', 'records part'}


def case(R, specs, before, names, after):
    w = pm.World(pm.mkspecs(specs))
    for op in before:
        w.step(op)
    w.check(False)
    for name in names:
        exc, f = BAD[name]
        try:
            f(w.p[0], w.p[1])
        except exc:
            pass
        else:
            raise Mismatch('%s after %r: accepted, expected %s' % (
                name, before, exc.__name__))
        same([p.FALLBACK_PREFIX for p in w.p], ['ch'] * 2,
             '%s after %r: prefix' % (name, before))
        w.check(False, 'after %r and %s: ' % (before, name))
        R.step()
    w.check(True, 'after %r and %s: ' % (before, names))
    for op in after:
        w.step(op)
        w.check(True, 'after %r, %s, %r: ' % (before, names, after))
    R.state((w.canon(), names))
    return (names, w.canon())


def each(R, depth, shard, nshards):
    """Every refused operation in every state reachable in depth steps."""
    i = 0
    for h in pm.model_bfs(SPECS, GOOD, depth):
        for name in BAD:
            i += 1
            if i % nshards == shard:
                R.do(case, SPECS, h, (name,), ())
                R.do(case, SPECS, h, (name,), (GOOD[i // nshards %
                                                    len(GOOD)],))


def pairs(R, depth, shard, nshards):
    i = 0
    for h in pm.model_bfs(SPECS, GOOD, depth):
        for a, b in itertools.product(BAD, repeat=2):
            i += 1
            if i % nshards == shard:
                R.do(case, SPECS, h, (a, b), (('reset', 0),))


def empty(R):
    for name in BAD:
        if name not in NEEDDATA:
            for after in ((), (('append', 0, 1),), (('datafrom', 0, 1),)):
                R.do(case, EMPTY, (), (name,), after)


KEYSETS = ((), (0,), (0, 1), (1,), (0, 2))
PREP = ((), (('fn', 0, 'fa'), ('fn', 1, 'fb')),
        (('fn', 1, 'fb'), ('nof', 0, 'nan'), ('mindur', 0, 2)),
        (('mindur', 0, 3), ('setname', 1, 9, 'w')), (('mask', 0, '101'),),
        (('fn', 0, 'fa'), ('dur', 0, 3), ('nof', 1, 'filter')))


def appends(R, shard, nshards):
    """All pairs of packs by the keys of their data and names."""
    for i, (da, na, db, nb) in enumerate(itertools.product(KEYSETS,
                                                           repeat=4)):
        if i % nshards != shard:
            continue
        for prep in PREP:
            if not da and any(op[0] in ('mask', 'dur') for op in prep):
                continue
            nb2 = set(nb) | {op[2] for op in prep if op[:2] == ('setname', 1)}
            if (da and db and da != db) or (na and nb2 and set(na) != nb2):
                R.do(append_case, da, na, db, nb, prep)


def append_case(R, da, na, db, nb, prep):
    specs = [(tuple((k, ('i', 1 + k, 2, 3)) for k in da),
              tuple((k, 'a%d' % k) for k in na)),
             (tuple((k, ('i', 4 + k, 5)) for k in db),
              tuple((k, 'b%d' % k) for k in nb))]
    return case(R, specs, prep, ('append', 'append to', 'append'),
                (('fn', 0, 'later'), ('reset', 0), ('append', 0, 0)))


def bounds(tier):
    return ('%d refused operations in every state reachable in <=%d of %d '
            'operations, pairs of them in every state reachable in <=%d' % (
                (len(BAD), 2, len(GOOD), 0) if tier == 'quick' else
                (len(BAD), 4, len(GOOD), 2)) +
            '; refused appends for all combinations of 5 sets of data keys '
            'and 5 of name keys of both packs, after 6 preparations')


def tasks(tier):
    q = tier == 'quick'
    n = 8 if q else 32
    return ([('empty', ())] + [('appends', (s, 4)) for s in range(4)] +
            [('each', (2 if q else 4, s, n)) for s in range(n)] +
            [('pairs', (0 if q else 2, s, n)) for s in range(n)])
