"""Reference model of ChannelPack and the driver that runs it in lockstep
with the real class.  Everything is lists, dicts and loops."""
import datetime
import numpy as np
from core import Mismatch, expect, same
from channelpack import ChannelPack

NAN = 'NaN'
NUMERIC = ('i', 'u', 'f', 'c')


# ------------------------------------------------------------ normalising

def norm(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and v != v:
        return NAN
    if isinstance(v, complex) and v != v:
        return NAN
    if isinstance(v, bool):
        return 'T' if v else 'F'
    return v


def nlist(a):
    return [norm(v) for v in a]


def runs(mask):
    """Maximal True runs as (start, stop) by definition: every pair is
    tried."""
    res = []
    n = len(mask)
    for i in range(n):
        if not mask[i] or (i > 0 and mask[i - 1]):
            continue
        j = i
        while j < n and mask[j]:
            j += 1
        res.append((i, j))
    return res


def durfilter(mask, req, atleast=True):
    mask = list(mask)
    for i, j in runs(mask):
        keep = (j - i >= req) if atleast else (j - i <= req)
        if not keep:
            for k in range(i, j):
                mask[k] = False
    return mask


def latch(start, stop):
    n = min(len(start), len(stop))
    res = []
    for i in range(n):
        # on if some start at s <= i with no stop in s..i
        res.append(any(start[s] and not any(stop[s:i + 1])
                       for s in range(i + 1)))
    return res


# ------------------------------------------------------------------ model

class M(object):
    """One pack.  data: key -> (numeric?, [values])"""

    def __init__(self, data=None, names=None):
        self.data = dict(data or {})
        self.names = dict(names or {})
        self.mindur = None
        self.nof = None
        self.prefix = 'ch'
        self.fn = ''
        self.filenames = ['']
        self.reset()

    def copy(self):
        m = M.__new__(M)
        m.data = dict(self.data)
        m.names = dict(self.names)
        m.mindur, m.nof, m.fn = self.mindur, self.nof, self.fn
        m.prefix = self.prefix
        m.filenames = list(self.filenames)
        m.mask = list(self.mask)
        return m

    def setmask(self, mask):
        self.mask = list(mask)
        if self.mindur is not None:
            self.mask = durfilter(self.mask, self.mindur)

    def reset(self):
        n = len(self.data[min(self.data)][1]) if self.data else 0
        self.setmask([True] * n)

    def canon(self):
        return (tuple(sorted((k, v[0], tuple(v[1]))
                             for k, v in self.data.items())),
                tuple(sorted(self.names.items())), self.mindur, self.nof,
                self.fn, tuple(self.filenames), tuple(self.mask),
                self.prefix)

    # reads
    def read(self, key, part=None, nof=None):
        numeric, vals = self.data[key]
        if part is not None:
            rs = runs(self.mask)
            if part >= len(rs):
                return IndexError
            return vals[rs[part][0]:rs[part][1]]
        mode = nof if nof is not None else self.nof
        if mode == 'filter':
            return [v for v, m in zip(vals, self.mask) if m]
        if mode == 'nan':
            fill = NAN if numeric else None
            return [v if m else fill for v, m in zip(vals, self.mask)]
        return list(vals)


def col(array):
    """Model column of a numpy array."""
    a = np.asarray(array)
    return (a.dtype.kind in NUMERIC, nlist(a))


# --------------------------------------------------------------- comparing

def compare(p, m, reads=True, where=''):
    """Compare all observable state of real pack p with model m."""
    same(sorted(p.data), sorted(m.data), where + 'data keys')
    for k in m.data:
        expect(isinstance(p.data[k], np.ndarray) and p.data[k].ndim == 1,
               where + 'data[%r] not a flat array', k)
        same(nlist(p.data[k]), m.data[k][1], where + 'data[%r]' % k)
    same(dict(p.names), m.names, where + 'names')
    same(p.mindur, m.mindur, where + 'mindur')
    same(p.nof, m.nof, where + 'nof')
    same(p.fn, m.fn, where + 'fn')
    same(p.FALLBACK_PREFIX, m.prefix, where + 'FALLBACK_PREFIX')
    same(list(p.filenames), m.filenames, where + 'filenames')
    expect(isinstance(p.mask, np.ndarray), where + 'mask not an array')
    expect(p.mask.dtype == bool, where + 'mask dtype %s', p.mask.dtype)
    same(p.mask.tolist(), m.mask, where + 'mask')
    rs = runs(m.mask)
    same(list(p.parts()), list(range(len(rs))), where + 'parts()')
    if not reads:
        return
    for k in m.data:
        if len(m.data[k][1]) != len(m.mask):
            continue            # views undefined for unequal lengths
        readings(p, m, k, where)
    # reading changed nothing
    compare(p, m, False, where + 'after reading: ')


def readings(p, m, k, where=''):
    same(p.name(k, fallback=True), m.prefix + str(k),
         where + 'fallback name of %r' % (k,))
    nparts = len(runs(m.mask))
    for nof in (None, 'nan', 'filter', 'ignore'):
        check_read(p, m, k, None, nof, where)
    for part in range(nparts + 1):
        check_read(p, m, k, part, None, where)


def check_read(p, m, k, part, nof, where=''):
    want = m.read(k, part, nof)
    what = where + 'pack(%r, part=%r, nof=%r)' % (k, part, nof)
    try:
        if part is None and nof is None:
            got = p(k)
        elif part is None:
            got = p(k, nof=nof)
        elif nof is None:
            got = p(k, part=part)
        else:
            got = p(k, part, nof)
    except IndexError:
        if want is IndexError:
            return
        raise
    expect(want is not IndexError, '%s: expected IndexError, got %r',
           what, got)
    expect(isinstance(got, np.ndarray), '%s: not an array', what)
    same(nlist(got), want, what)
    mode = None if part is not None else (nof or m.nof)
    if mode == 'nan':
        if m.data[k][0]:
            expect(got.dtype.kind in ('f', 'c'), '%s: dtype %s', what,
                   got.dtype)
        else:
            expect(all(v is None for v, b in zip(got, m.mask) if not b),
                   '%s: not None where the mask is False: %r', what, got)
    else:
        expect(got.dtype == p.data[k].dtype, '%s: dtype %s', what, got.dtype)


# ---------------------------------------------------------------- datasets

def ints(n, base=1):
    return np.array(range(base, base + n), dtype=int)


def texts(n, base=0):
    return np.array([chr(97 + (base + i) % 26) for i in range(n)],
                    dtype='U1') if n else np.array([], dtype='U1')


DT = {
    'int': lambda n: np.arange(1, n + 1),
    'uint8': lambda n: np.arange(250, 250 + n).astype('u1'),
    'float': lambda n: np.array([0.5 * i - 1 for i in range(n)], dtype=float),
    'float32': lambda n: np.array([0.25 * i for i in range(n)], dtype='f4'),
    'floatnan': lambda n: np.array([np.nan if i % 2 == 0 else float(i)
                                    for i in range(n)], dtype=float),
    'floatinf': lambda n: np.array([np.inf if i % 2 == 0 else -np.inf
                                    for i in range(n)], dtype=float),
    'complex': lambda n: np.array([complex(i, -i) for i in range(n)],
                                  dtype=complex),
    'bool': lambda n: np.array([i % 2 == 0 for i in range(n)], dtype=bool),
    'str': lambda n: np.array(['s%d' % i for i in range(n)], dtype='U3'),
    'emptystr': lambda n: np.array([''] * n, dtype='U1'),
    'bytes': lambda n: np.array([b'b%d' % i for i in range(n)], dtype='S3'),
    'objnone': lambda n: np.array([None if i % 2 == 0 else i
                                   for i in range(n)], dtype=object),
    'objnan': lambda n: np.array([np.nan if i % 2 == 0 else 'x'
                                  for i in range(n)], dtype=object),
    'date': lambda n: np.array([datetime.date(2020, 1, 1 + i)
                                for i in range(n)], dtype=object),
    'datetime64': lambda n: np.array(['2020-01-0%d' % (1 + i)
                                      for i in range(n)],
                                     dtype='datetime64[D]'),
    'timedelta': lambda n: np.arange(3, 3 + n).astype('m8[D]'),
    'datetime64ns': lambda n: np.array(['2020-01-0%d' % (1 + i)
                                        for i in range(n)],
                                       dtype='datetime64[ns]'),
    'int8': lambda n: np.arange(-2, n - 2).astype('i1'),
    'bigint': lambda n: np.array([2 ** 53 - i for i in range(n)]),
    'float16': lambda n: np.array([0.5 * i for i in range(n)], dtype='f2'),
    'nat': lambda n: np.array(['NaT'] * n, dtype='datetime64[D]'),
}


# ---------------------------------------------------------------- operations

def b(bits):
    return np.array([c == '1' for c in bits], dtype=bool)


def bl(bits):
    return [c == '1' for c in bits]


class World(object):
    """Real packs and model packs stepped in lockstep.  Each operation has
    a model half m_<op> (returns the expected return value, None for don't
    care, or an exception class when the operation must be refused without
    effect) and a real half r_<op>."""

    def __init__(self, specs, real=True):
        """specs: list of (data dict of arrays, names dict)"""
        self.real = real
        self.p, self.m = [], []
        for data, names in specs:
            if real:
                self.p.append(ChannelPack(
                    dict(data) if data is not None else None,
                    dict(names) if names is not None else None))
            self.m.append(M({k: col(v) for k, v in (data or {}).items()},
                            names))
        self.user = []          # (array handed in, expected values)

    def canon(self):
        return tuple(m.canon() for m in self.m)

    def check(self, reads=True, where=''):
        for i, (p, m) in enumerate(zip(self.p, self.m)):
            compare(p, m, reads, where + 'pack %d: ' % i)
        for a, want in self.user:
            same(nlist(a), want, where + 'array supplied by the caller')

    def step(self, op):
        want = getattr(self, 'm_' + op[0])(*op[1:])
        if not self.real:
            return
        fn = getattr(self, 'r_' + op[0])
        if isinstance(want, type) and issubclass(want, Exception):
            try:
                fn(*op[1:])
            except want:
                return
            raise Mismatch('%r: expected %s' % (op, want.__name__))
        got = fn(*op[1:])
        if want is not None:
            expect(isinstance(got, np.ndarray) and got.dtype == bool,
                   '%r: result not a bool array: %r', op, got)
            same(got.tolist(), want, '%r: result' % (op,))

    def given(self, a):
        self.user.append((a, nlist(a)))
        return a

    # -- masks
    def m_mask(self, i, bits):
        self.m[i].setmask(bl(bits))

    def r_mask(self, i, bits):
        self.p[i].mask = self.given(b(bits))

    def m_and(self, i, bits):
        self.m[i].setmask([x and y for x, y in zip(self.m[i].mask, bl(bits))])

    def r_and(self, i, bits):
        self.p[i].mask &= self.given(b(bits))

    def m_or(self, i, bits):
        self.m[i].setmask([x or y for x, y in zip(self.m[i].mask, bl(bits))])

    def r_or(self, i, bits):
        self.p[i].mask = self.p[i].mask | b(bits)

    def m_inv(self, i):
        self.m[i].setmask([not x for x in self.m[i].mask])

    def r_inv(self, i):
        self.p[i].mask = ~self.p[i].mask

    def m_reset(self, i):
        self.m[i].reset()

    def r_reset(self, i):
        self.p[i].mask_reset()

    def m_dur(self, i, d, sr=1, atleast=True):
        req = int(round(d * sr))
        assert abs(req - d * sr) < 1e-12
        self.m[i].mask = durfilter(self.m[i].mask, req, atleast)
        return list(self.m[i].mask)

    def r_dur(self, i, d, sr=1, atleast=True):
        if sr == 1 and atleast:
            return np.array(self.p[i].duration(d))
        return np.array(self.p[i].duration(d, samplerate=sr, mindur=atleast))

    def m_mindur(self, i, v):
        self.m[i].mindur = v
        if v is not None:
            self.m[i].mask = durfilter(self.m[i].mask, v)

    def r_mindur(self, i, v):
        self.p[i].mindur = v

    def m_ss(self, i, start, stop, apply=True):
        want = latch(bl(start), bl(stop))
        if apply:
            self.m[i].setmask([x and y for x, y
                               in zip(self.m[i].mask, want)])
        return want

    def r_ss(self, i, start, stop, apply=True):
        s, t = self.given(b(start)), self.given(b(stop))
        if apply:
            return self.p[i].startstop(s, t)
        return self.p[i].startstop(s, t, apply=False)

    # -- data, names, files
    def m_data(self, i, d):
        self.m[i].data = {k: col(mk(v)) for k, v in d}
        self.m[i].reset()

    def r_data(self, i, d):
        """d: ((key, column spec), ...)"""
        self.p[i].data = {k: mk(v) for k, v in d}

    def m_datafrom(self, i, j):
        self.m[i].data = dict(self.m[j].data)
        self.m[i].reset()

    def r_datafrom(self, i, j):
        self.p[i].data = self.p[j].data

    def m_namesfrom(self, i, j):
        self.m[i].names = dict(self.m[j].names)

    def r_namesfrom(self, i, j):
        self.p[i].names = self.p[j].names

    def m_maskfrom(self, i, j):
        self.m[i].setmask(self.m[j].mask)

    def r_maskfrom(self, i, j):
        self.p[i].mask = self.p[j].mask

    def m_construct(self, i, j):
        self.m[i] = M(self.m[j].data, self.m[j].names)

    def r_construct(self, i, j):
        self.p[i] = ChannelPack(self.p[j].data, self.p[j].names)

    def m_setitem(self, i, k, c):
        self.m[i].data[k] = col(mk(c))

    def r_setitem(self, i, k, c):
        self.p[i].data[k] = mk(c)

    def m_delitem(self, i, k):
        if k not in self.m[i].data:
            return KeyError
        del self.m[i].data[k]

    def r_delitem(self, i, k):
        del self.p[i].data[k]

    def m_setname(self, i, k, s):
        self.m[i].names[k] = s

    def r_setname(self, i, k, s):
        self.p[i].names[k] = s

    def m_names(self, i, d):
        self.m[i].names = dict(d)

    def r_names(self, i, d):
        self.p[i].names = dict(d)

    def m_clearnames(self, i):
        self.m[i].names = {}

    def r_clearnames(self, i):
        self.p[i].names.clear()

    def m_fn(self, i, s):
        self.m[i].fn = s
        self.m[i].filenames[0] = s

    def r_fn(self, i, s):
        self.p[i].fn = s

    def m_append(self, i, j):
        mi, mj = self.m[i], self.m[j]
        if ((mi.data and mj.data and set(mi.data) != set(mj.data)) or
                (mi.names and mj.names and set(mi.names) != set(mj.names))):
            return ValueError
        od, on, of = dict(mj.data), dict(mj.names), list(mj.filenames)
        if not mi.data:
            mi.data = od
        elif od:
            mi.data = {k: (mi.data[k][0] and od[k][0],
                           mi.data[k][1] + od[k][1]) for k in mi.data}
        if not mi.names:
            mi.names = on
        mi.filenames = mi.filenames + of
        mi.reset()

    def r_append(self, i, j):
        self.p[i].append_pack(self.p[j])

    def m_nof(self, i, v):
        self.m[i].nof = v

    def r_nof(self, i, v):
        self.p[i].nof = v

    def m_prefix(self, i, v):
        self.m[i].prefix = v

    def r_prefix(self, i, v):
        self.p[i].FALLBACK_PREFIX = v

    # -- refused operations: exception, nothing changed
    def m_bad(self, i, which):
        return {'nof': ValueError, 'mask': TypeError, 'mindur': TypeError,
                'fn': TypeError}.get(which, AttributeError)

    def r_bad(self, i, which):
        p = self.p[i]
        if which == 'nof':
            p.nof = 'ignore'
        elif which == 'mask':
            p.mask = [True] * len(p.mask)
        elif which == 'mindur':
            p.mindur = 2.0
        elif which == 'fn':
            p.fn = None
        elif which.startswith('del '):
            delattr(p, which[4:])


def mk(spec):
    """Column from a spec (kind, values...): ('i', 1, 2), ('s', 'a', 'b'),
    ('f', 1.0, 'nan'), ('o', None, 3), or (dtype name, n)."""
    if spec[0] in DT:
        return DT[spec[0]](spec[1])
    kind, vals = spec[0], spec[1:]
    if kind == 'i':
        return np.array(vals, dtype=int)
    if kind == 'f':
        return np.array([float(v) for v in vals], dtype=float)
    if kind == 's':
        return np.array(vals, dtype='U4')
    if kind == 'o':
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        return a
    raise KeyError(spec)


def bits(n):
    """All bit strings of length n."""
    return [format(i, '0%db' % n) if n else '' for i in range(2 ** n)]


def mkspecs(specs):
    return [({k: mk(c) for k, c in data} if data is not None else None,
             dict(names) if names is not None else None)
            for data, names in specs]


def history(R, specs, hist, observe_all):
    """Case: execute a history; compare after every step or only at the
    end."""
    w = World(mkspecs(specs))
    if observe_all:
        w.check(where='initially: ')
    for k, op in enumerate(hist):
        w.step(op)
        R.step()
        if observe_all and k < len(hist) - 1:
            w.check(where='after %r: ' % (hist[:k + 1],))
    w.check(where='after %r: ' % (hist,))
    c = w.canon()
    R.state(c)
    return c


def model_bfs(specs, ops, depth):
    """Breadth first search of the model: shortest history of every distinct
    model state reachable within depth, in BFS order."""
    sp = mkspecs(specs)

    def build(h):
        w = World(sp, real=False)
        for o in h:
            w.step(o)
        return w

    seen = {build(()).canon()}
    frontier, order = [()], [()]
    for d in range(depth):
        nxt = []
        for h in frontier:
            base = build(h)
            saved = base.m
            for op in ops:
                base.m = [m.copy() for m in saved]
                base.step(op)
                c = base.canon()
                if c not in seen:
                    seen.add(c)
                    nxt.append(h + (op,))
        order += nxt
        frontier = nxt
    return order


def explore(R, specs, ops, depth, shard, nshards):
    """Every transition out of every state reachable within depth-1 steps,
    on the real code, once with everything observed after each step and once
    observed at the end only."""
    states = model_bfs(specs, ops, depth - 1) if depth > 0 else [()]
    if depth > 0 and shard == 0:
        R.do(history, specs, (), True)
    for idx, h in enumerate(states):
        if idx % nshards != shard:
            continue
        for op in ops:
            R.do(history, specs, h + (op,), True)
            R.do(history, specs, h + (op,), False)


def sequences(R, specs, ops, depth, shard, nshards):
    """All operation sequences of exactly this length, no deduplication."""
    import itertools
    for idx, h in enumerate(itertools.product(ops, repeat=depth)):
        if idx % nshards != shard:
            continue
        R.do(history, specs, h, True)
        R.do(history, specs, h, False)


# -- operations carry arguments of a certain length; use them only on packs
#    of that length

def oplen(op):
    if op[0] in ('mask', 'and', 'or'):
        return len(op[2])
    if op[0] == 'ss' and (len(op) < 5 or op[4]):
        return len(op[2])
    return None


MAXLEN = 8


def fits(op, sizes):
    n = oplen(op)
    if n is not None and sizes[op[1]] != n:
        return False
    if op[0] == 'append' and sizes[op[1]] + sizes[op[2]] > MAXLEN:
        return False
    if op[0] == 'maskfrom' and sizes[op[1]] != sizes[op[2]]:
        return False
    return True


def sizes_of(w):
    return tuple(len(m.mask) for m in w.m)


def seq_fits(specs, h):
    w = World(mkspecs(specs), real=False)
    for op in h:
        if not fits(op, sizes_of(w)):
            return False
        w.step(op)
    return True


def model_bfs_sized(specs, ops, depth):
    """As model_bfs, with only fitting operations; yields (history, sizes)."""
    sp = mkspecs(specs)
    w = World(sp, real=False)
    seen = {w.canon()}
    frontier, order = [((), w.m)], [((), sizes_of(w))]
    for d in range(depth):
        nxt = []
        for h, saved in frontier:
            w.m = saved
            sz = sizes_of(w)
            for op in ops:
                if not fits(op, sz):
                    continue
                w.m = [m.copy() for m in saved]
                w.step(op)
                c = w.canon()
                if c not in seen:
                    seen.add(c)
                    nxt.append((h + (op,), w.m))
                    order.append((h + (op,), sizes_of(w)))
        frontier = nxt
    return order
