"""Packs of any size and histories of any length: a vectorised reference
model of the mask algebra, run in lockstep with the real ChannelPack.

The operations name a pattern instead of spelling out the bits, so that one
alphabet fits packs of every length and a single history can contain every
pair (or triple) of operations one after the other (de Bruijn sequences)."""
import numpy as np
from core import Mismatch, expect, same
from channelpack import ChannelPack

SMALL = list(range(0, 41))
EDGE = [63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300,
        511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049]
LARGE = [4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001, 16383,
         16384, 16385, 20000, 32767, 32768, 32769, 50001, 65535, 65536,
         65537, 100001]


def thue(n):
    i = np.arange(n)
    r = np.zeros(n, dtype=int)
    while i.any():
        r ^= i & 1
        i = i >> 1
    return r.astype(bool)


def growing(n):
    """F T F F T T F F F T T T ..."""
    r, k, out = 0, 1, []
    while r < n:
        out += [False] * k + [True] * k
        r += 2 * k
        k += 1
    return np.array(out[:n], dtype=bool)


def one(n, *idx):
    a = np.zeros(n, dtype=bool)
    for i in idx:
        if -n <= i < n:
            a[i] = True
    return a


PAT = {
    'all': lambda n: np.ones(n, dtype=bool),
    'none': lambda n: np.zeros(n, dtype=bool),
    'tf': lambda n: np.arange(n) % 2 == 0,
    'ft': lambda n: np.arange(n) % 2 == 1,
    'ttf': lambda n: np.arange(n) % 3 != 2,
    'fft': lambda n: np.arange(n) % 3 == 2,
    'b5': lambda n: np.arange(n) // 5 % 2 == 0,
    'b16': lambda n: np.arange(n) // 16 % 2 == 1,
    'b256': lambda n: np.arange(n) // 256 % 2 == 0,
    'b10000': lambda n: np.arange(n) // 10000 % 2 == 1,
    'grow': growing,
    'worg': lambda n: growing(n)[::-1].copy(),
    'thue': thue,
    'first': lambda n: one(n, 0),
    'last': lambda n: one(n, -1),
    'ends': lambda n: one(n, 0, -1),
    'mid': lambda n: one(n, n // 2),
    'notfirst': lambda n: ~one(n, 0),
    'notlast': lambda n: ~one(n, -1),
    'notmid': lambda n: ~one(n, n // 2),
    'half1': lambda n: np.arange(n) < n // 2,
    'half2': lambda n: np.arange(n) >= n // 2,
}
PATS = list(PAT)


def runs(mask):
    """Maximal True runs, as arrays of starts and stops."""
    m = np.concatenate(([0], np.asarray(mask).astype(np.int64), [0]))
    d = m[1:] - m[:-1]
    return np.flatnonzero(d == 1), np.flatnonzero(d == -1)


def durfilter(mask, req, atleast=True):
    mask = np.array(mask)
    s, t = runs(mask)
    bad = (t - s < req) if atleast else (t - s > req)
    if bad.any():
        cut = np.zeros(len(mask) + 1, dtype=np.int64)
        np.add.at(cut, s[bad], 1)
        np.add.at(cut, t[bad], -1)
        mask[np.cumsum(cut)[:-1] > 0] = False
    return mask


def latch(start, stop):
    n = len(start)
    i = np.arange(n)
    on = np.where(start & ~stop, i, -2)
    off = np.where(stop, i, -1)
    if not n:
        return np.zeros(0, dtype=bool)
    return np.maximum.accumulate(on) > np.maximum.accumulate(off)


def lencode(n, v):
    """A requested length from a code."""
    return {'n': n, 'n-1': n - 1, 'n+1': n + 1, 'half': n // 2}.get(v, v)


class BM(object):
    """Model: data as {key: array}, mask as array."""

    def __init__(self, data):
        self.data = dict(data)
        self.mindur = None
        self.nof = None
        self.reset()

    def set(self, mask):
        self.mask = np.array(mask)
        if self.mindur is not None:
            self.mask = durfilter(self.mask, self.mindur)

    def reset(self):
        n = len(self.data[min(self.data)]) if self.data else 0
        self.set(np.ones(n, dtype=bool))


def mkdata(n, base=0):
    i = np.arange(n)
    return {3: i + base, 1: i * 0.5 - base,
            12: np.array(['%d' % (v % 977) for v in range(base, base + n)],
                         dtype='U4')}


class Big(object):
    def __init__(self, n):
        d = mkdata(n)
        self.n0 = n
        self.p = ChannelPack(d)
        self.m = BM(d)
        self.cap = max(4 * n, 40)
        self.appends = 0

    def step(self, op):
        getattr(self, 'do_' + op[0])(*op[1:])

    def pat(self, name):
        return PAT[name](len(self.m.mask))

    def do_mask(self, pat):
        a = self.pat(pat)
        self.m.set(a)
        self.p.mask = a

    def do_and(self, pat):
        a = self.pat(pat)
        self.m.set(self.m.mask & a)
        self.p.mask &= a

    def do_or(self, pat):
        a = self.pat(pat)
        self.m.set(self.m.mask | a)
        self.p.mask |= a

    def do_xor(self, pat):
        a = self.pat(pat)
        self.m.set(self.m.mask ^ a)
        self.p.mask = self.p.mask ^ a

    def do_inv(self):
        self.m.set(~self.m.mask)
        self.p.mask = ~self.p.mask

    def do_reset(self):
        self.m.reset()
        self.p.mask_reset()

    def do_dur(self, code, sr=1, atleast=True):
        req = lencode(len(self.m.mask), code)
        self.m.mask = durfilter(self.m.mask, req, atleast)
        got = self.p.duration(req / sr if sr != 1 else req, sr, atleast)
        expect(np.array_equal(got, self.m.mask), 'duration(%r) of %d: result',
               code, len(self.m.mask))

    def do_mindur(self, code):
        v = lencode(len(self.m.mask), code)
        self.m.mindur = v
        if v is not None:
            self.m.mask = durfilter(self.m.mask, v)
        self.p.mindur = v

    def do_ss(self, s, t, apply=True):
        a, b = self.pat(s), self.pat(t)
        want = latch(a, b)
        got = self.p.startstop(a, b, apply)
        expect(isinstance(got, np.ndarray) and got.dtype == bool,
               'startstop: %r', type(got))
        expect(np.array_equal(got, want), 'startstop(%s, %s) of %d: result '
               'differs at %r', s, t, len(a),
               np.flatnonzero(got != want)[:3].tolist()
               if len(got) == len(want) else (len(got), len(want)))
        if apply:
            self.m.set(self.m.mask & want)

    def do_nof(self, v):
        self.m.nof = v
        self.p.nof = v

    def do_append(self):
        n = len(self.m.mask)
        if 2 * n > self.cap:
            return self.do_data()
        d = self.m.data
        self.m.data = {k: np.concatenate([d[k], d[k]]) for k in d}
        self.m.reset()
        # Each append of a pack to itself doubles its list of file names.
        self.appends += 1
        self.p.append_pack(self.p if self.appends < 9 else ChannelPack(d))

    def do_data(self, extra=0):
        d = mkdata(self.n0 + extra, 7)
        self.m.data = dict(d)
        self.m.reset()
        self.p.data = d

    # ---------------------------------------------------------- comparing
    def check(self, where='', reads=True):
        p, m = self.p, self.m
        expect(isinstance(p.mask, np.ndarray) and p.mask.dtype == bool,
               '%smask is not a bool array', where)
        expect(len(p.mask) == len(m.mask), '%smask of length %d, want %d',
               where, len(p.mask), len(m.mask))
        bad = np.flatnonzero(p.mask != m.mask)
        expect(not len(bad), '%smask of %d differs at %r', where,
               len(m.mask), bad[:3].tolist())
        same(p.mindur, m.mindur, where + 'mindur')
        same(p.nof, m.nof, where + 'nof')
        s, t = runs(m.mask)
        same(list(p.parts()), list(range(len(s))), where + 'parts()')
        if reads:
            for k in m.data:
                self.check_reads(k, s, t, where)

    def check_reads(self, k, s, t, where):
        p, m = self.p, self.m
        a = m.data[k]
        n = len(a)

        def eq(got, want, what):
            expect(isinstance(got, np.ndarray) and got.dtype == a.dtype
                   and np.array_equal(got, want),
                   '%schannel %r of %d, %s: differs', where, k, n, what)
        eq(p.data[k], a, 'data')
        eq(p(k, nof='ignore'), a, "nof='ignore'")
        eq(p(k, nof='filter'), a[np.flatnonzero(m.mask)], "nof='filter'")
        for nof in ('nan',) + ((None,) if m.nof == 'nan' else ()):
            got = p(k, nof=nof)
            expect(isinstance(got, np.ndarray) and len(got) == n,
                   '%snof=%r', where, nof)
            eq(got[m.mask].astype(a.dtype), a[m.mask], 'nof=%r, selected'
               % nof)
            rest = got[~m.mask]
            ok = np.isnan(rest).all() if a.dtype.kind in 'iuf' else \
                all(v is None for v in rest)
            expect(ok, '%schannel %r of %d: nof=%r, not selected', where, k,
                   n, nof)
        if m.nof == 'filter':
            eq(p(k), a[np.flatnonzero(m.mask)], 'attribute filter')
        elif m.nof is None:
            eq(p(k), a, 'as is')
        np_ = len(s)
        which = range(np_) if np_ <= 40 else sorted(
            set(range(20)) | set(range(np_ - 6, np_)) |
            {x + d for x in (64, 100, 128, 256, 500, 512, 1000, 1024, 2048,
                             4096, 8192, 10000, 16384, 32768)
             for d in (-1, 0, 1) if x + d < np_})
        for i in which:
            eq(p(k, part=i), a[s[i]:t[i]], 'part %d' % i)
        for i in (np_, np_ + 1, np_ + 300):
            try:
                got = p(k, part=i)
            except IndexError:
                continue
            raise Mismatch('%spart %d of %d gave %r' % (where, i, np_, got))


def history(R, n, hist, every):
    """Lockstep run of one history on a pack of n rows."""
    w = Big(n)
    for k, op in enumerate(hist):
        w.step(op)
        R.step()
        if every and k + 1 < len(hist) and (k + 1) % every == 0:
            w.check('after %d operations ending with %r: ' % (
                k + 1, hist[max(0, k - 3):k + 1]), reads=False)
    w.check('after %d operations ending with %r: ' % (
        len(hist), hist[-4:]), reads=True)
    R.state((n, hist))
    return (n, int(w.m.mask.sum()), len(w.m.mask))


def debruijn(alphabet, n):
    """Cyclic sequence with every n-tuple of the alphabet exactly once,
    unrolled."""
    k = len(alphabet)
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    seq += seq[:n - 1]
    return tuple(alphabet[i] for i in seq)
