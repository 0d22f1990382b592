"""Sources, serialisation and oracle for delimited text."""
import gzip
import io
import os
import shutil
import tempfile
import numpy as np
from core import expect, same
import packmodel as pm

NAN = pm.NAN


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='cpmc')
        self.path = os.path.join(self.dir, 'f.dat')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


_scratch = None


def scratch_path():
    """One scratch file per process, removed by cleanup()."""
    global _scratch
    if _scratch is None:
        _scratch = Scratch()
        _scratch.__enter__()
    return _scratch.path


def cleanup():
    global _scratch
    if _scratch is not None:
        _scratch.__exit__()
        _scratch = None


def put(content):
    p = scratch_path()
    with open(p, 'wb') as f:
        f.write(content)
    return p


SOURCES = ('str', 'path', 'bytes', 'textfile', 'binfile', 'bytesenc',
           'stroff', 'bytesoff')


BIGSOURCES = SOURCES + ('binfileoff', 'textfileoff')


# streams without a name, or with one that is no file name
STREAMS = ('tempfile', 'spooled', 'gzip', 'buffered', 'wrapper', 'fdtext',
           'bytesname')
BINSTREAMS = ('tempfile', 'spooled', 'gzip', 'buffered', 'bytesname')


def stream(kind, raw, encoding='utf-8'):
    if kind == 'tempfile':
        f = tempfile.TemporaryFile()
    elif kind == 'spooled':
        f = tempfile.SpooledTemporaryFile(max_size=1 << 20)
    elif kind == 'gzip':
        b = io.BytesIO()
        with gzip.GzipFile(fileobj=b, mode='wb') as z:
            z.write(raw)
        b.seek(0)
        return gzip.GzipFile(fileobj=b)
    elif kind == 'buffered':
        return io.BufferedReader(io.BytesIO(raw))
    elif kind == 'wrapper':
        return io.TextIOWrapper(io.BytesIO(raw), encoding=encoding)
    elif kind == 'fdtext':
        return io.open(os.open(put(raw), os.O_RDONLY), encoding=encoding)
    elif kind == 'bytesname':
        return io.open(put(raw).encode(), 'rb')
    f.write(raw)
    f.seek(0)
    return f


class Source(object):
    """Open text as the given kind of source.  .isbytes: delimiters have to
    be bytes; .decode: text comes back as str."""

    def __init__(self, kind, text, encoding='utf-8', prelines=None):
        self.kind, self.closer = kind, None
        raw = text.encode(encoding)
        self.kw = {}
        self.isbytes = kind in ('bytes', 'binfile', 'bytesenc', 'bytesoff',
                                'binfileoff') + BINSTREAMS
        self.astext = kind not in ('bytes', 'binfile', 'bytesoff',
                                   'binfileoff') + BINSTREAMS
        self.name = ''
        if kind == 'str':
            self.arg = io.StringIO(text)
        elif kind == 'path':
            self.arg = self.name = put(raw)
            self.kw = {'encoding': encoding}
        elif kind in ('bytes', 'bytesenc'):
            self.arg = io.BytesIO(raw)
            if kind == 'bytesenc':
                self.kw = {'encoding': encoding}
        elif kind == 'textfile':
            self.name = put(raw)
            self.arg = self.closer = io.open(self.name, encoding=encoding)
        elif kind == 'binfile':
            self.name = put(raw)
            self.arg = self.closer = io.open(self.name, 'rb')
        elif kind == 'stroff':
            pre = '9;8\n7,6 5\t4\n\n' * (prelines or 1)
            self.arg = io.StringIO(pre + text)
            self.arg.seek(len(pre))
        elif kind == 'bytesoff':
            pre = b'9;8\n7,6 5\t4\n\n' * (prelines or 1)
            self.arg = io.BytesIO(pre + raw)
            self.arg.seek(len(pre))
        elif kind in ('binfileoff', 'textfileoff'):
            # read up to the table, as a caller would
            pre = '9;8\n' * (prelines or 1)
            self.name = put(pre.encode(encoding) + raw)
            self.arg = self.closer = io.open(
                self.name, 'rb') if self.isbytes else io.open(
                    self.name, encoding=encoding)
            for _ in range(prelines or 1):
                self.arg.readline()
        elif kind in STREAMS:
            self.arg = self.closer = stream(kind, raw, encoding)
        else:
            raise KeyError(kind)

    def delim(self, d):
        return d.encode('ascii') if self.isbytes and d is not None else d

    def close(self):
        """The caller's stream must still be open."""
        if self.kind != 'path':
            expect(not self.arg.closed, 'stream of the caller was closed')
        if self.closer is not None:
            self.closer.close()


def num(s):
    """Value of a decimal literal computed from its digits (no float() of
    the text with a comma)."""
    t = s.strip().replace(',', '.')
    return float(t)


def isnum(s, comma):
    t = s.strip()
    if comma:
        t = t.replace(',', '.')
    try:
        float(t)
        return True
    except ValueError:
        return False


def expected(rows, comma_allowed, strip, astext, encoding='utf-8'):
    """Columns of a rectangular table by the documented rules."""
    ncols = len(rows[0])
    cols = []
    for c in range(ncols):
        first = rows[0][c]
        if isnum(first, comma_allowed):
            cols.append([NAN if r[c] == '' else norm_float(r[c])
                         for r in rows])
        else:
            vals = [r[c].strip() if strip else r[c] for r in rows]
            if not astext:
                vals = [v.encode(encoding) for v in vals]
            cols.append(vals)
    return cols


def norm_float(s):
    v = num(s)
    return NAN if v != v else v


def check_pack(pack, cols, names, keys, what, fn=None):
    """cols: all expected columns; keys: the column numbers present."""
    same(sorted(pack.data), sorted(keys), what + ': keys')
    for k in keys:
        a = pack(k)
        want = cols[k]
        same(pm.nlist(a), want, what + ': channel %d' % k)
        if want and all(isinstance(v, float) or v == NAN for v in want):
            expect(a.dtype.kind == 'f', '%s: channel %d dtype %s', what, k,
                   a.dtype)
    if names is not None:
        same(dict(pack.names), names, what + ': names')
    if fn is not None:
        same(pack.fn, fn, what + ': fn')
    same(pack.mask.tolist(), [True] * len(cols[0]), what + ': mask')
