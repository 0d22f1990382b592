"""C23: files opened by a reader are closed, streams of the caller are not."""
import builtins
import io
import itertools
import mmap
import os
import shutil
import tempfile

_open = io.open
_mmap = mmap.mmap
PLAN = None


class Plan(object):
    """Counts the I/O operations on files in a scratch directory and makes
    the k-th one fail (with all after it if persistent)."""

    def __init__(self, where, k, persistent, error, chunk=24):
        self.where, self.k, self.persistent = where, k, persistent
        self.error, self.chunk = error, chunk
        self.n = 0
        self.raws = []
        self.hit = False

    def op(self, what):
        self.n += 1
        if self.n == self.k or self.persistent and 0 < self.k < self.n:
            self.hit = True
            raise self.error('injected: operation %d, %s' % (self.n, what))


class FaultRaw(io.FileIO):
    plan = None

    def readinto(self, b):
        if self.plan is None:
            return io.FileIO.readinto(self, b)
        self.plan.op('read')
        m = memoryview(b).cast('B')[:self.plan.chunk]
        return io.FileIO.readinto(self, m)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return bytes(b[:k])

    def readall(self):
        out = []
        while 1:
            b = bytearray(4096)
            k = self.readinto(b)
            if not k:
                return b''.join(out)
            out.append(bytes(b[:k]))

    def seek(self, *a):
        if self.plan is not None:
            self.plan.op('seek')
        return io.FileIO.seek(self, *a)

    def tell(self):
        if self.plan is not None:
            self.plan.op('tell')
        return io.FileIO.tell(self)


def fault_open(file, mode='r', buffering=-1, encoding=None, errors=None,
               newline=None, closefd=True, opener=None):
    plan = PLAN
    try:
        path = os.fspath(file)
    except TypeError:
        path = None
    if plan is None or not isinstance(path, str) or \
            not path.startswith(plan.where) or 'w' in mode:
        return _open(file, mode, buffering, encoding, errors, newline,
                     closefd, opener)
    plan.op('open')
    raw = FaultRaw(path, mode.replace('b', '').replace('t', ''))
    plan.raws.append(raw)
    try:
        st = raw
        if buffering != 0:
            st = io.BufferedReader(raw, 32)
        if 'b' not in mode:
            st = io.TextIOWrapper(st, encoding, errors, newline)
    except BaseException:
        raw.close()
        raise
    raw.plan = plan
    return st


class FaultMmap(mmap.mmap):
    def __new__(cls, *a, **k):
        if PLAN is not None:
            PLAN.op('mmap')
        return _mmap.__new__(cls, *a, **k)


# before the package is imported, however it refers to them
builtins.open = io.open = fault_open
mmap.mmap = FaultMmap

import channelpack as cp                                # noqa: E402
from channelpack import xlrd                            # noqa: E402
import dbfmodel as dm                                   # noqa: E402
import xlsgen as g                                      # noqa: E402
import xlsxgen as xg                                    # noqa: E402
from core import expect, same                           # noqa: E402

PROP = 'C23'
LEVEL = 'fault_enumeration'
RULE = ('every I/O operation (open, read, seek, tell, map) that the reader '
        'makes is failed once, alone and with all that follow, with OSError '
        'and with KeyboardInterrupt; every byte of text made undecodable; '
        'every conversion failed; every truncation of binary files')
ASSUMPTIONS = ['closing a file does not fail',
               'files are opened through open, io.open or mmap',
               'an operation that is allowed to fail (probing) may be '
               'ignored if the complete data is delivered all the same']

TEXT = ''.join('%d.5;%d;s%d\n' % (i, i * 3, i) for i in range(6))
LAZY = 'a,b,c\n' + ''.join('%d,%d.5,%d\n' % (i, i, i * i) for i in range(6))


DBF = dm.write(('n62', 'c4', 'd'), [(0, 0, 0), (2, 2, 2), (3, 3, 3),
                                    (1, 1, 0)], [0, 1, 0, 0])
DBFEND = len(DBF) - 1


def xls(pad=0):
    body = b''.join(g.number(r, c, c % 2, r + c + 0.5) for r in range(4)
                    for c in range(2)) + g.labelsst(4, 0, 0, 0)
    return g.workbook([('S', body), ('T', g.number(0, 0, 0, 1.0))],
                      ['shared'], (0, 14), globalpad=pad)


def xlsx(store=True):
    rows = [(' r="%d"' % (r + 1), [
        '<c r="A%d"><v>%d</v></c>' % (r + 1, r),
        '<c r="B%d" t="s"><v>0</v></c>' % (r + 1)]) for r in range(4)]
    return xg.package([('S', xg.sheetxml(rows)), ('T', xg.sheetxml(rows))],
                      sst=[xg.si('shared')], styles=xg.stylesxml([], [0]),
                      store=store)


def xlsx_comments():
    """With relationships of the sheet and a part of comments."""
    rows = [(' r="1"', ['<c r="A1"><v>3</v></c>'])]
    com = ('<?xml version="1.0"?><comments xmlns="%s"><authors><author>me'
           '</author></authors><commentList><comment ref="A1" authorId="0">'
           '<text><t>note</t></text></comment></commentList></comments>'
           % xg.NS)
    return xg.package(
        [('S', xg.sheetxml(rows))], styles=xg.stylesxml([], [0]),
        parts=[('xl/worksheets/_rels/sheet1.xml.rels',
                xg.rels([('rId1', 'comments', '../comments1.xml')])),
               ('xl/comments1.xml', com),
               ('docProps/core.xml', '<?xml version="1.0"?><cp:core'
                'Properties xmlns:cp="http://schemas.openxmlformats.org/'
                'package/2006/metadata/core-properties" xmlns:dc="http://'
                'purl.org/dc/elements/1.1/"><dc:creator>me</dc:creator>'
                '</cp:coreProperties>')])


def packed(p):
    return (sorted((k, [repr(x) for x in p.data[k].tolist()])
                   for k in p.data), sorted(p.names.items()))


def booked(wb):
    return [(sh.name, [(sh.row_values(r), list(sh.row_types(r)))
                       for r in range(sh.nrows)]) for sh in wb.sheets()]


def demand(path, mm, fmt=False):
    with xlrd.open_workbook(path, on_demand=True, use_mmap=mm,
                            formatting_info=fmt) as wb:
        a = booked(wb)
    return a, wb


def eager(path, mm=True, **kw):
    wb = xlrd.open_workbook(path, use_mmap=mm, **kw)
    return booked(wb), wb


def canon(res):
    return packed(res) if isinstance(res, cp.ChannelPack) else res[0]


SEMI = dict(delimiter=';')
# name -> (content, function of the path or stream, takes a stream)
READERS = {
    'text': (TEXT.encode(), lambda p: cp.textpack(p, **SEMI), 't'),
    'text utf-8': (TEXT.encode(), lambda p: cp.textpack(
        p, encoding='utf-8', **SEMI), 't'),
    'text skip': (TEXT.encode(), lambda p: cp.textpack(
        p, skiprows=2, usecols=(0, 2), debug=True, **SEMI), 't'),
    'text names': (LAZY.encode(), lambda p: cp.textpack(
        p, hasnames=True, delimiter=','), 't'),
    'text conv': (TEXT.encode(), lambda p: cp.textpack(
        p, converters={0: float}, stripstrings=True, debug=True, **SEMI),
        't'),
    'text bytes': (TEXT.encode(), lambda p: cp.textpack(
        p, delimiter=b';', encoding='utf-8'), 'b'),
    'text space': (b'1 2\n3 4\n5 6\n', lambda p: cp.textpack(p), 't'),
    'lazy': (LAZY.encode(), lambda p: cp.lazy_textpack(p), 'tb'),
    'lazy few': (LAZY.encode(), lambda p: cp.lazy_textpack(
        p, parselines=3, usecols=(0, 2)), 'tb'),
    'dbf': (DBF, lambda p: cp.dbfpack(p), 'b'),
    'dbf names': (DBF, lambda p: cp.dbfpack(p, ['B', 'ALPHA']), 'b'),
    'sheet xls': (g.simple_doc(xls()), lambda p: cp.sheetpack(p), ''),
    'sheet xls bare': (xls(), lambda p: cp.sheetpack(p, 'S', header=True),
                       ''),
    'sheet xls long': (g.simple_doc(xls(5000)), lambda p: cp.sheetpack(p, 1),
                       ''),
    'sheet xlsx': (xlsx(), lambda p: cp.sheetpack(p, 1), ''),
    'sheet xlsx deflated': (xlsx(False), lambda p: cp.sheetpack(
        p, 'S', stopcell='B3'), ''),
    'sheet xlsx comments': (xlsx_comments(), lambda p: cp.sheetpack(p), ''),
    'book xls': (g.simple_doc(xls()), lambda p: eager(p, False), ''),
    'book xls mapped': (g.simple_doc(xls(5000)), lambda p: eager(
        p, True, formatting_info=True), ''),
    'book demand': (g.simple_doc(xls(5000)), lambda p: demand(p, True), ''),
    'book demand bare': (xls(), lambda p: demand(p, True, True), ''),
    'book demand unmapped': (g.simple_doc(xls()), lambda p: demand(p, False),
                             ''),
    'book xlsx': (xlsx(), lambda p: eager(p, ragged_rows=True), ''),
    'book xlsx formatting': (xlsx(), lambda p: eager(
        p, formatting_info=True), ''),
}


class Scratch(object):
    def __init__(self, content):
        self.content = content

    def __enter__(self):
        # resolve: /proc reports real paths
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='mc_c23_'))
        self.path = os.path.join(self.d, 'file')
        with _open(self.path, 'wb') as f:
            f.write(self.content)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def held(self):
        """Descriptors and mappings of files in the scratch directory."""
        out = []
        for fd in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if t.startswith(self.d):
                out.append('descriptor ' + fd)
        with _open('/proc/self/maps') as f:
            if any(self.d in line for line in f):
                out.append('mapping')
        return out


def run(sc, f, arg, k, persistent, error, chunk):
    """-> plan, result, exception"""
    global PLAN
    plan = Plan(sc.d, k, persistent, error, chunk)
    PLAN = plan
    res = exc = None
    try:
        res = f(arg)
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    finally:
        PLAN = None
    return plan, res, exc


def leak_check(sc, plan, what):
    for raw in plan.raws:
        expect(raw.closed, '%s: the file is left open', what)
    held = sc.held()
    expect(not held, '%s: left open: %s', what, ', '.join(held))


def close_all(plan):
    for raw in plan.raws:
        raw.close()


def whole(name, chunk):
    """Number of operations and result without faults."""
    content, f, _ = READERS[name]
    with Scratch(content) as sc:
        plan, res, exc = run(sc, f, sc.path, 0, False, OSError, chunk)
        what = '%s without faults' % name
        if name == 'book xlsx formatting':
            expect(exc is not None, 'no error')
        elif exc is not None:
            raise exc
        leak_check(sc, plan, what)
        return plan.n, None if res is None else canon(res)


def whole_case(R, name, chunk):
    n, res = whole(name, chunk)
    expect(n >= 2, '%s made %d operations', name, n)
    R.step(n)
    R.state((name, chunk, 0))
    return n


def path_case(R, name, k, persistent, error, chunk, want):
    content, f, _ = READERS[name]
    what = '%s with operation %d failing%s (%s)' % (
        name, k, ' and all that follow' if persistent else '', error.__name__)
    with Scratch(content) as sc:
        plan, res, exc = run(sc, f, sc.path, k, persistent, error, chunk)
        try:
            leak_check(sc, plan, what)
        finally:
            close_all(plan)
        expect(plan.hit or k > plan.n, '%s: operation not reached', what)
        if exc is None:
            expect(want is not None and canon(res) == want,
                   '%s: returned %r', what, res)
            kind = 'complete'
        else:
            kind = type(exc).__name__
            expect(error is not KeyboardInterrupt or not plan.hit or
                   isinstance(exc, KeyboardInterrupt),
                   '%s: became %r', what, exc)
        R.step(plan.n)
    R.state((name, k, persistent, error.__name__, chunk))
    return name, k, kind


def path_faults(R, name, chunk):
    n, want = whole(name, chunk)
    R.do(whole_case, name, chunk)
    for k in range(1, n + 2):
        for persistent in (False, True):
            for error in (OSError, KeyboardInterrupt, PermissionError):
                R.do(path_case, name, k, persistent, error, chunk, want)


def make_stream(sc, kind, plan_k, plan_args):
    """A stream of the caller that fails at its k-th operation."""
    plan = Plan(sc.d, 0, *plan_args)
    raw = FaultRaw(sc.path)
    raw.plan = plan
    buf = io.BufferedReader(raw, 32)
    st = buf if kind == 'b' else io.TextIOWrapper(buf, 'utf-8')
    plan.k = plan.n + plan_k if plan_k else 0
    return plan, raw, st


def stream_case(R, name, kind, k, persistent, error, chunk, want):
    content, f, _ = READERS[name]
    what = '%s of a stream with operation %d failing' % (name, k)
    with Scratch(content) as sc:
        plan, raw, st = make_stream(sc, kind, k, (persistent, error, chunk))
        res = exc = None
        n0 = plan.n
        try:
            res = f(st)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        n = plan.n - n0
        hit = plan.hit
        plan.k = 0
        try:
            expect(not st.closed and not raw.closed,
                   '%s: the stream of the caller was closed', what)
            os.fstat(raw.fileno())
            st.seek(0)
            got = st.read()
            expect((got if kind == 'b' else got.encode()) == content,
                   '%s: the stream is unusable', what)
        finally:
            raw.plan = None
            st.close()
        if exc is None:
            expect(want is None or canon(res) == want, '%s: returned %r',
                   what, res)
            expect(not hit or want is not None, '%s: returned', what)
        elif not hit:
            raise exc
        elif error is KeyboardInterrupt:
            expect(isinstance(exc, KeyboardInterrupt), '%s: became %r', what,
                   exc)
        R.step(n)
    R.state((name, kind, k, persistent, error.__name__, chunk))
    return n, None if res is None else canon(res)


def stream_faults(R, name, chunk):
    for kind in READERS[name][2]:
        first = R.do(stream_case, name, kind, 0, False, OSError, chunk, None)
        n, want = first
        for k in range(1, n + 2):
            for persistent in (False, True):
                for error in (OSError, KeyboardInterrupt):
                    R.do(stream_case, name, kind, k, persistent, error, chunk,
                         want)


# -- parse errors -----------------------------------------------------------

def parse_case(R, what, content, f, must_fail, stream):
    with Scratch(content) as sc:
        if stream:
            st = _open(sc.path, 'rb')
            if stream == 't':
                st = io.TextIOWrapper(st, 'utf-8')
            res = exc = None
            try:
                res = f(st)
            except Exception as e:
                exc = e
            ok = not st.closed
            st.close()
            expect(ok, '%s: the stream of the caller was closed', what)
            del res
        else:
            plan, res, exc = run(sc, f, sc.path, 0, False, OSError, 24)
            try:
                leak_check(sc, plan, what)
            finally:
                close_all(plan)
            R.step(plan.n)
            del res
        expect(exc is not None or not must_fail, '%s: no error', what)
    R.state((what, stream))
    return type(exc).__name__


def undecodable(name, i):
    c = READERS[name][0]
    return c[:i] + b'\xff' + c[i + 1:]


def decode_case(R, name, i, stream):
    """Byte i is not utf-8."""
    f = {'text': lambda p: cp.textpack(p, encoding='utf-8', **SEMI),
         'lazy': lambda p: cp.lazy_textpack(p, encoding='utf-8')}[name]
    return parse_case(R, '%s with byte %d undecodable' % (name, i),
                      undecodable(name, i), f, True, stream)


class Failing(object):
    def __init__(self, at):
        self.at = at

    def __call__(self, s):
        self.at -= 1
        if self.at < 0:
            raise ZeroDivisionError('converter')
        return 1.0


def converter_case(R, at, col, debug, stream):
    return parse_case(
        R, 'conversion %d of column %d failing' % (at, col), TEXT.encode(),
        lambda p: cp.textpack(p, converters={col: Failing(at)}, debug=debug,
                              **SEMI), True, stream)


TRUNC = {'dbf': DBFEND, 'dbf names': DBFEND - 8}   # the date is last


def trunc_case(R, name, n, stream):
    content, f, _ = READERS[name]
    must = n < TRUNC.get(name, 0) or n < len(content) and 'xlsx' in name
    return parse_case(R, '%s truncated to %d bytes' % (name, n),
                      content[:n], f, must, stream)


def damage_case(R, name, i, v):
    content, f, _ = READERS[name]
    return parse_case(R, '%s with byte %d changed to %d' % (name, i, v),
                      content[:i] + bytes([v]) + content[i + 1:], f, False,
                      None)


ARGS = [dict(sheet=5), dict(sheet='None such'), dict(startcell='C9'),
        dict(usecols='Z'), dict(header='A99'), dict(stopcell='ZZ'),
        dict(startcell='B2', usecols='A'), dict(usecols='A:'),
        dict(header=True, stopcell='XX500')]


def args_case(R, name, i):
    return parse_case(R, '%s %r' % (name, ARGS[i]), READERS[name][0],
                      lambda p: cp.sheetpack(p, **ARGS[i]), False, None)


TARGS = [dict(delimiter=';', usecols=(0, 9)), dict(delimiter='!', usecols=3),
         dict(delimiter=';', converters={0: int}), dict(skiprows=99),
         dict(delimiter=3), dict(hasnames=True, delimiter=';',
                                 converters={2: float})]


def targs_case(R, fn, i, stream):
    f = getattr(cp, fn)
    return parse_case(R, '%s %r' % (fn, TARGS[i]), TEXT.encode(),
                      lambda p: f(p, **TARGS[i]), False, stream)


def decoding(R):
    for name in ('text', 'lazy'):
        for i in range(len(READERS[name][0])):
            for st in ('', 't'):
                R.do(decode_case, name, i, st)


def converting(R):
    for at in range(6):
        for col in range(3):
            for debug in (False, True):
                for st in ('', 't'):
                    R.do(converter_case, at, col, debug, st)


def arguments(R):
    for name in READERS:
        if name.startswith('sheet'):
            for i in range(len(ARGS)):
                R.do(args_case, name, i)
    for fn in ('textpack', 'lazy_textpack'):
        for i in range(len(TARGS)):
            for st in ('', 't'):
                R.do(targs_case, fn, i, st)


def truncating(R, name, step, shard, nshards):
    n = len(READERS[name][0])
    for i in range(shard, n, nshards):
        if i % step and n - i > 40 and i > 200:
            continue
        R.do(trunc_case, name, i, '')
        if name in TRUNC:
            R.do(trunc_case, name, i, 'b')


def damaging(R, name, vals, step, shard, nshards):
    n = len(READERS[name][0])
    for i in range(shard * step, n, nshards * step):
        for v in vals:
            R.do(damage_case, name, i, v)


def tasks(tier):
    out = []
    quick = tier == 'quick'
    for name in READERS:
        big = len(READERS[name][0]) > 3000
        if READERS[name][2]:
            out.append(('stream_faults', (name, 24)))
            if not quick:
                out.append(('stream_faults', (name, 7)))
        if name == 'text bytes':        # of streams only
            continue
        out.append(('path_faults', (name, 1024 if big else 200 if
                                    'xls' in name else 24)))
        if not quick:
            out.append(('path_faults', (name, 256 if big else 64 if
                                        'xls' in name else 7)))
    out += [('decoding', ()), ('converting', ()), ('arguments', ())]
    for name in ('dbf', 'dbf names', 'sheet xls', 'sheet xls bare',
                 'sheet xlsx', 'sheet xlsx deflated', 'book demand bare',
                 'book demand'):
        for s in range(4):
            out.append(('truncating', (name, 16 if quick else 1, s, 4)))
            out.append(('damaging', (name, (0, 255) if quick else
                                     (0, 1, 10, 13, 127, 128, 254, 255),
                                     16 if quick else 1, s, 4)))
    return out


def bounds(tier):
    return ('%d reader calls; one fault at every I/O operation, alone and '
            'persistent; %s' % (len(READERS), RULE))
