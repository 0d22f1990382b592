"""C32: the printed form of a pack creates an equal pack."""
import datetime
import itertools
import numpy as np
from core import expect, same
import packmodel as pm
from channelpack import ChannelPack

PROP = 'C32'
ASSUMPTIONS = ['numbers of at most 8 digits and channels of at most 1000 '
               'elements (numpy shortens others when it prints arrays)',
               'object channels hold values whose own printed form creates '
               'them']

VALS = {
    'int': lambda n: np.array([(7 * i) % 11 - 3 for i in range(n)], dtype=int),
    'float': lambda n: np.array([(i % 7) * 0.5 - 1 for i in range(n)],
                                dtype=float),
    'odd': lambda n: np.array([(np.nan, np.inf, -np.inf, 0.0, 1e300, 5e-324)
                               [i % 6] for i in range(n)], dtype=float),
    'small': lambda n: np.array([1.5 * i for i in range(n)], dtype='f4'),
    'byte': lambda n: np.array([i % 200 for i in range(n)], dtype='u1'),
    'bool': lambda n: np.array([i % 3 == 0 for i in range(n)], dtype=bool),
    'complex': lambda n: np.array([complex(i, -i) for i in range(n)],
                                  dtype=complex),
    'text': lambda n: np.array([('a', '', 'b c', "it's", '"q"', '{0}', '%s',
                                 'x\ny', '\\', 'Été', ', ', '})')[i % 12]
                                for i in range(n)], dtype='U5'),
    'bytes': lambda n: np.array([(b'a', b'', b'\xff{}', b"'")[i % 4]
                                 for i in range(n)], dtype='S4'),
    'obj': lambda n: np.array([(None, 1, 'x', 2.5, True)[i % 5]
                               for i in range(n)], dtype=object),
    'date': lambda n: np.array([datetime.date(2020, 1 + i % 12, 3)
                                for i in range(n)], dtype=object),
    'stamp': lambda n: np.array([datetime.datetime(1999, 12, 31, 23, 59,
                                                   i % 60)
                                 for i in range(n)], dtype=object)}
NAMES = ['', 'a', 'x y', '{}', '{0}', "it's", '"', '%d', 'n\nl', '\\n', 'Ω',
         'ch1', "'", '})', '\t', 'a: b', ',']
NS = {'ChannelPack': ChannelPack, 'array': np.array, 'nan': np.nan,
      'inf': np.inf, 'datetime': datetime}
for _t in ('float32', 'uint8', 'int8', 'int16', 'int32', 'int64', 'uint16',
           'uint32', 'uint64', 'float16', 'float64', 'complex64', 'complex128'):
    NS[_t] = getattr(np, _t)


def show(p):
    return {k: (str(p.data[k].dtype.kind), pm.nlist(p.data[k]))
            for k in p.data}


def case(R, items, names, n, nof, off):
    """items: (key, kind of values) in the order they are inserted."""
    data = {k: VALS[t](n) for k, t in items}
    p = ChannelPack(data, dict(names))
    if n:
        m = np.ones(n, dtype=bool)
        m[list(off)] = False
        p.mask = m
    p.nof = nof
    before = show(p)
    text = repr(p)
    what = 'repr %r' % (text if len(text) < 500 else text[:500],)
    expect(isinstance(text, str), '%s is a %s', what, type(text))
    try:
        q = eval(text, dict(NS))
    except Exception as e:
        expect(False, '%s does not evaluate: %r', what, e)
    expect(type(q) is ChannelPack, '%s evaluates to %s', what, type(q))
    same(list(q.data), sorted(data), what + ': keys in order')
    same(list(q.names), sorted(dict(names)), what + ': names keys in order')
    same(dict(q.names), dict(names), what + ': names')
    got = show(q)
    for k in data:
        # the printed form of an empty array of text does not tell its kind
        if n:
            same(got[k][0], before[k][0], what + ': kind of channel %d' % k)
        same(got[k][1], before[k][1], what + ': channel %d' % k)
    same(show(p), before, what + ': the pack itself')
    same(str(p), text, what + ': str')
    same(p.mask.tolist(), [i not in off for i in range(n)],
         what + ': mask')
    R.step()
    R.state((items, names, n))
    return (items, names, n)


KEYS = (0, 1, 2, 10, -3)


def kinds(R, nch, sizes, shard, nshards):
    """All value kinds in all channels, keys in all orders."""
    i = 0
    for ks in itertools.permutations(KEYS if nch < 3 else KEYS[1:4], nch):
        for ts in itertools.product(sorted(VALS), repeat=nch):
            for n in sizes:
                i += 1
                if i % nshards != shard:
                    continue
                nm = tuple((k, NAMES[(i + 3 * j) % len(NAMES)])
                           for j, k in enumerate(ks[:i % (nch + 1)]))
                R.do(case, tuple(zip(ks, ts)), nm, n,
                     (None, 'nan', 'filter')[i % 3], (0,) if n and i % 2
                     else ())


def naming(R):
    """All names on all subsets of keys, in every order of insertion."""
    items = ((0, 'int'), (1, 'text'))
    for a, b in itertools.product(NAMES, repeat=2):
        for nm in (((0, a),), ((0, a), (1, b)), ((1, b), (0, a)),
                   ((7, b), (-1, a)), ((10, a), (9, b))):
            R.do(case, items, nm, 2, None, ())
            R.do(case, (), nm, 0, None, ())
    R.do(case, (), (), 0, None, ())


def lengths(R, ns):
    for t in sorted(VALS):
        for n in ns:
            R.do(case, ((0, t), (3, 'int')), ((0, 'x'), (3, '{}')), n,
                 'filter', ())


def many(R):
    ts = sorted(VALS)
    for nch in (9, 10, 11, 12, 27, 100, 101, 300):
        for rev in (False, True):
            ks = list(range(nch))
            if rev:
                ks.reverse()
            R.do(case, tuple((k, ts[k % len(ts)]) for k in ks),
                 tuple((k, 'n%d' % k) for k in ks), 2, None, (1,))


def bounds(tier):
    return ('all 12 kinds of values in <=3 channels, keys in all orders, '
            'all pairs of %d names, lengths to 1000, up to 300 channels' %
            len(NAMES))


def tasks(tier):
    q = tier == 'quick'
    t = [('naming', ()), ('many', ())]
    t += [('kinds', (1, (0, 1, 2, 7), 0, 1))]
    t += [('kinds', (2, (0, 1, 3) if q else (0, 1, 2, 3, 13), s, 8))
          for s in range(8)]
    t += [('kinds', (3, (2,) if q else (0, 1, 2, 5), s, 16))
          for s in range(16)]
    t += [('lengths', ((3, 5, 6, 10, 20, 50, 99, 100, 101, 500, 999, 1000)
                       if q else tuple(range(1, 1001)),))]
    return t
