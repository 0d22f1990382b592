"""C35: readers and packs used at the same time do not affect each other.

Two pieces of work run in two threads under a controlled scheduler.  A trace
function counts the scheduling points (lines or calls) the package passes in a
thread; at a given point the thread hands over to the other and waits.
"""
import functools
import io
import itertools
import os
import struct
import sys
import threading
import numpy as np
from core import expect, same
import c33
import packmodel as pm
import xlsgen as g
import channelpack
from channelpack import ChannelPack, xlrd
from channelpack.xlrd import xldate

PROP = 'C35'
ASSUMPTIONS = ['threads are switched between lines or calls of the package, '
               'not inside a line; at most two switches away from a thread']
ROOT = os.path.dirname(os.path.abspath(channelpack.__file__)) + os.sep
WAIT = 2.0          # seconds before a schedule is taken as impossible
END = 100.0         # seconds until both are done then
late = []           # impossible schedules


# -- pieces of work ---------------------------------------------------------

def show(p):
    return ([(k, p.data[k].dtype.kind, pm.nlist(p.data[k]))
             for k in sorted(p.data)], sorted(p.names.items()), p.fn,
            list(p.filenames), p.mask.tolist(), p.parts(), p.nof, p.mindur)


def table(fmt, v):
    types = 'ni' if fmt == 'lazy' else ('nit', 'tn')[v]
    for base in range(1 + 2 * v, 40):
        cols = c33.make(types, 3 + v, base)
        if c33.usable(fmt, types, cols):
            break
    return types, cols, [('x%d_%d' % (v, i)).upper()
                         for i in range(len(types))]


def read_files(fmt, v):
    types, cols, names = table(fmt, v)
    assert c33.usable(fmt, types, cols), fmt
    path = c33.put('%s%d.%s' % (fmt, v, c33.ext(fmt)),
                   c33.FORMATS[fmt][0](types, cols, names))
    return lambda: show(c33.reader(fmt, names)(path))


def book(v):
    """A workbook with formats, dates and shared rich texts."""
    fm = [(164 + i, s) for i, s in enumerate(
        (['yyyy-mm-dd', '0.00', 'hh:mm'], ['0%', 'dd/mm', '"d"0'])[v])]
    texts = [('alpha', 'beta', 'gamma'), ('en', 'tv\xe5', '\u1234')][v]
    runs = [[(0, 1)], [], [(1, v), (v, 2)]]
    sst = b''
    for s, rs in zip(texts, runs):
        if v:
            rs = rs[::-1] + [(0, 0)]
        raw = g.ustr(s)
        sst += raw[:2] + bytes([raw[2] | 8]) + struct.pack('<H', len(rs)) + \
            raw[3:] + b''.join(struct.pack('<HH', *r) for r in rs)
    cells = b''
    for r in range(3):
        cells += g.number(r, 0, 1 + (r + v) % 3, 100.5 * (r + 1 + v))
        cells += g.labelsst(r, 1, 0, (r + v) % 3)
    return g.simple_doc(g.workbook(
        [('S%d' % v, cells), ('T%d' % v, g.number(v, v, 2, 7.0 + v))],
        g.rec(0xFC, struct.pack('<II', 3, 3) + sst),
        (0,) + tuple(f[0] for f in fm), fm, datemode=v))


def formatted(v):
    d = book(v)

    def work(**kw):
        out = []
        with xlrd.open_workbook(file_contents=d, logfile=io.StringIO(),
                                **kw) as b:
            out.append((b.sheet_names(), b.datemode, b.biff_version))
            for sh in b.sheets():
                out.append([(c.ctype, c.value, c.xf_index)
                            for i in range(sh.nrows) for c in sh.row(i)])
                out.append(sorted(sh.rich_text_runlist_map.items()))
            out.append(sorted((k, f.format_str) for k, f in
                              b.format_map.items()))
        return out
    return work


def dated(v):
    """A pack of dates, numbers and texts."""
    path = c33.put('dated%d.xls' % v, book(v))

    def work():
        p = channelpack.sheetpack(path, header=False)
        return [[repr(x) for x in p(k)] for k in sorted(p.data)], p.fn
    return work


def packs(v):
    def work():
        p = ChannelPack({0: np.arange(8) * (v + 1.5), 1: list('abcdefgh')},
                        {0: 'n%d' % v, 1: 'text'})
        p.fn = 'f%d' % v
        p.mask = p('n%d' % v) > 2 + v
        p.startstop([v, 1, 0, 0, 1, 0, 0, 0], [0, 0, 0, 1, 0, 0, 0, v])
        p.mindur = 1 + v
        q = ChannelPack({0: [5.0, v], 1: ['x', 'y']}, {0: 'q', 1: 'r%d' % v})
        q.append_pack(p)
        out = [show(p), show(q), repr(q)]
        p.nof = ('filter', 'nan')[v]
        out += [[repr(x) for x in p.records(fallback=bool(v))],
                pm.nlist(p('ch0')), p.name(1), p.name(0, fallback=True)]
        q.mask = np.array([i % 3 != v for i in range(10)])
        q.duration(2 - v, mindur=not v)
        return out + [show(q), [pm.nlist(q(1, part=i)) for i in q.parts()]]
    return work


def dates(v):
    def work():
        out = []
        for i in range(4):
            x = 40000.25 * (v + 1) + 17.125 * i
            t = xlrd.xldate_as_tuple(x, v)
            out += [t, xlrd.xldate_as_datetime(x, v),
                    xldate.xldate_from_datetime_tuple(t, v),
                    xlrd.colname(26 * v + i), xlrd.cellname(i, 700 * v)]
        return out
    return work


def failing(v):
    """Reading of a table with an error in row 3."""
    text = '1;2\n3;4\n5;%s\n' % 'xy'[v]

    def work():
        try:
            channelpack.textpack(io.StringIO(text), delimiter=';')
        except ValueError as e:
            return str(e)
        return None
    return work


READS = ('text', 'comma', 'names', 'lazy', 'dbf', 'dbfsel', 'textcols')
SHEETS = ('xls', 'biff4', 'biff5', 'xlsx')
BOOKS = {'eager': {}, 'demand': {'on_demand': True},
         'format': {'formatting_info': True}, 'ragged': {'ragged_rows': True}}
SMALL = READS + ('packs', 'dates', 'failing')
ALL = SMALL + SHEETS + tuple(sorted(BOOKS)) + ('dated',)


@functools.lru_cache(None)
def work(item, v):
    if item in READS + SHEETS:
        return read_files(item, v)
    if item in BOOKS:
        return functools.partial(formatted(v), **BOOKS[item])
    return {'packs': packs, 'dates': dates, 'failing': failing,
            'dated': dated}[item](v)


@functools.lru_cache(None)
def alone(item, v):
    return work(item, v)()


# -- scheduler --------------------------------------------------------------

class Thread(threading.Thread):
    """Runs a piece of work; stops at the given points until let on."""

    def __init__(self, f, points, lines):
        threading.Thread.__init__(self, daemon=True)
        self.f, self.points, self.lines = f, tuple(points), lines
        self.n = 0
        self.at = 0
        self.go = threading.Semaphore(0)
        self.stopped = threading.Semaphore(0)
        self.result = None
        self.ended = False

    def point(self):
        self.n += 1
        if self.at < len(self.points) and self.n == self.points[self.at]:
            self.at += 1
            self.stopped.release()
            self.go.acquire()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if event == 'call' and not self.lines:
            self.point()
            frame.f_trace_lines = False
        elif event == 'line':
            self.point()
        elif event == 'return' and not self.lines:
            self.point()
        return self.trace

    def run(self):
        self.go.acquire()
        try:
            if self.points:
                sys.settrace(self.trace)
            try:
                self.result = ('value', self.f())
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.result = ('raised', type(e).__name__, str(e))
        self.ended = True
        self.stopped.release()

    def on(self):
        """Let it run to its next point; False when it does not get there
        (it waits for something the other one holds)."""
        self.go.release()
        return self.stopped.acquire(timeout=WAIT)


def schedule(a, b, apoints, bpoints, lines):
    """a to its first point, b to its first, a to its second and so on."""
    ts = [Thread(a, apoints, lines), Thread(b, bpoints, lines)]
    for t in ts:
        t.start()
    turn = 0
    while not all(t.ended for t in ts):
        t = ts[turn % 2]
        turn += 1
        if not t.ended and not t.on():
            # not a possible schedule: let both run
            for t in ts:
                for _ in range(9):
                    t.go.release()
            for t in ts:
                t.join(END)
            late.append(1)
            break
    for t in ts:
        expect(t.result is not None, 'no end within %g s', END)
    return [t.result for t in ts]


@functools.lru_cache(None)
def length(item, v, lines):
    """Number of scheduling points of a piece of work."""
    t = Thread(work(item, v), (1 << 60,), lines)
    t.start()
    t.on()
    return t.n


def case(R, a, b, apoints, bpoints, lines):
    """a: (item, variant)"""
    got = schedule(work(*a), work(*b), apoints, bpoints, lines)
    what = '%r and %r switched at %s %r and %r' % (
        a, b, 'line' if lines else 'call', apoints, bpoints)
    for x, r in zip((a, b), got):
        same(r, ('value', alone(*x)), '%r of %s' % (x, what))
    R.step(1 + len(apoints) + len(bpoints))
    R.state((a, b, apoints, bpoints, lines))
    return a, b, apoints, bpoints


def once(R, a, others, lines, step):
    """a is left once, at every step-th point; the other one runs."""
    try:
        for b in others:
            n = length(a, 0, lines)
            for i in range(1, n + 1, step):
                if len(late) < 20:
                    R.do(case, (a, 0), (b, 1), (i,), (), lines)
    finally:
        cleanup()


def twice(R, a, b, lines, step, shard, nshards):
    """a to i, b to j, a to the end, b to the end."""
    try:
        k = 0
        n, m = length(a, 0, lines), length(b, 1, lines)
        for i in range(1, n + 1, step):
            for j in range(1, m + 1, step):
                k += 1
                if k % nshards == shard and len(late) < 20:
                    R.do(case, (a, 0), (b, 1), (i,), (j,), lines)
    finally:
        cleanup()


def cleanup():
    c33.cleanup()
    for f in (work, alone, length):
        f.cache_clear()


# -- a file written again --------------------------------------------------

def again_case(R, fmt, seq):
    """One path holds the tables of seq one after the other."""
    for i, v in enumerate(seq):
        types, cols, names = table(fmt, v)
        raw = c33.FORMATS[fmt][0](types, cols, names)
        got = []
        for nm in ('again', 'other%d_%d' % (i, len(os.listdir(
                c33.scratch())))):
            path = c33.put('%s.%s' % (nm, c33.ext(fmt)), raw)
            p = c33.reader(fmt, names)(path)
            same((p.fn, list(p.filenames)), (path, [path]), 'file names')
            x = show(p)
            got.append(x[:2] + x[4:])
        os.remove(path)
        same(got[0], got[1], 'a file of table %d after %r' % (v, seq[:i]))
    R.step(len(seq))
    R.state((fmt, seq))
    return fmt, seq


def again(R, n):
    try:
        for fmt in READS + tuple(sorted(set(c33.FORMATS) - set(READS))):
            for seq in itertools.product((0, 1), repeat=n):
                R.do(again_case, fmt, seq)
    finally:
        cleanup()


# -- several iterations over one pack ---------------------------------------

def gens_case(R, sched):
    """Two record iterations, over one pack and over two, interleaved."""
    p = ChannelPack({0: [1.5, 2, 3], 2: list('abc')}, {0: 'x', 2: 'y'})
    q = ChannelPack({0: [7, 8, 9], 1: list('uvw')}, {0: 'k', 1: 'm'})
    mk = [lambda: p.records(), lambda: p.records(fallback=True),
          lambda: q.records(), lambda: q.records(nof='filter')]
    want = [[tuple(map(repr, r)) + r._fields for r in f()] for f in mk]
    its = [f() for f in mk]
    got = [[] for _ in mk]
    for i in sched:
        for r in its[i]:
            got[i].append(tuple(map(repr, r)) + r._fields)
            break
    for i in range(4):
        same(got[i], want[i][:sched.count(i)], 'records %d of schedule %r' % (
            i, sched))
    R.step(len(sched))
    R.state(sched)
    return sched


def gens(R, n):
    def go(seq):
        if len(seq) == n:
            R.do(gens_case, seq)
            return
        for i in range(4):
            if seq.count(i) < 3:
                go(seq + (i,))
    go(())


def bounds(tier):
    return ('%d pieces of work (reads of all kinds of files, pack histories, '
            'date conversions); one switch at every %s of the one for '
            'two of a kind, %s for pairs of all kinds, and at %s line of '
            'them; two switches at %s; all interleavings of 4 record '
            'iterations to length %d; all sequences of two tables written to '
            'one path, read after each' % (
                (len(ALL), 'call (workbooks: 5th)', '5th (23rd)',
                 'every 3rd (41st)', 'every 9th call', 5)
                if tier == 'quick' else
                (len(ALL), 'call', 'every (2nd)', 'every (workbooks: 3rd)',
                 'every 2nd call (all pairs of small ones, 7th), every 9th '
                 'line', 8)))


def tasks(tier):
    q = tier == 'quick'
    t = [('gens', (5 if q else 8,)), ('again', (3 if q else 5,))]
    for a in ALL:
        big = a not in SMALL
        t.append(('once', (a, (a,), False, 5 if q and big else 1)))
        t.append(('once', (a, (a,), True,
                           (41 if big else 3) if q else 3 if big else 1)))
        for bs in [ALL[i::3] for i in range(3)]:
            bs = tuple(b for b in bs if b != a)
            t.append(('once', (a, bs, False, (23 if big else 5) if q else
                               2 if big else 1)))
    for a in SMALL:
        for b in SMALL:
            if q and a != b:
                continue
            n = 1 if q else 4
            t += [('twice', (a, b, False,
                             9 if q else 2 if a == b else 7, s, n))
                  for s in range(n)]
    if not q:
        for a in SMALL:
            t += [('twice', (a, a, True, 9, s, 4)) for s in range(4)]
        for a in ALL:
            if a not in SMALL:
                t += [('twice', (a, a, False, 13, s, 4)) for s in range(4)]
    return t
