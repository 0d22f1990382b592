"""dbf writer and the values it stands for."""
import datetime
import io
import struct
import textmodel as tm
import packmodel as pm
from core import expect, same

NAN = pm.NAN

# type code -> (dbf type, size, decimals, [(raw text, value)...])
def _pad(s, n):
    return s.rjust(n)


TYPES = {
    'c1': (b'C', 1, 0, [('a', 'a'), (' ', ' '), ('\x7f', '\x7f')]),
    'c4': (b'C', 4, 0, [('abc ', 'abc '), ('    ', '    '), (' xy*', ' xy*'),
                        ('1234', '1234'), ('*   ', '*   ')]),
    'n3': (b'N', 3, 0, [('  7', 7), ('   ', NAN), ('-12', -12), ('0  ', 0),
                        ('999', 999), ('\0\0\0', NAN), (' 5\0', 5),
                        ('+1 ', 1), (' \x006', 6)]),
    'n62': (b'N', 6, 2, [('  1.50', 1.5), ('      ', NAN), ('-12.25', -12.25),
                         ('     3', 3.0), ('0.00  ', 0.0), ('\0' * 6, NAN),
                         ('  1e2 ', 100.0)]),
    'f8': (b'F', 8, 3, [('   2.125', 2.125), ('        ', NAN),
                        ('-1.5e+02', -150.0), ('0       ', 0.0)]),
    'f80': (b'F', 8, 0, [('       4', 4.0), ('        ', NAN),
                         ('    -1.5', -1.5)]),
    'd': (b'D', 8, 0, [('20200229', datetime.date(2020, 2, 29)),
                       ('        ', None),
                       ('19991231', datetime.date(1999, 12, 31)),
                       ('00010101', datetime.date(1, 1, 1))]),
    'l': (b'L', 1, 0, [('T', 'T'), ('F', 'F'), ('?', '?'), ('t', 'T'),
                       ('n', 'F'), (' ', '?'), ('Y', 'T'), ('y', 'T'),
                       ('N', 'F'), ('f', 'F'), ('x', '?')]),
    'm': (b'M', 10, 0, [(' ' * 10, ' ' * 10), ('         1', '         1')]),
}


FNAMES = ['DeletionFla', 'Deletion', 'DELETED', 'A', 'a', 'A ', ' A', 'A B',
          '', '1', '_', 'ABCDEFGHIJK', 'ABCDEFGHIJ', '*', 'names', 'ch0']


def fieldname(i):
    return ['ALPHA', 'B', 'GAMMA_LONG', 'X1', 'ee', 'Z'][i]


def write(layout, rows, deleted, eof=True, fnames=None, flag=b'*'):
    """layout: tuple of type codes; rows: list of tuples of indices into the
    values of each type."""
    n = len(layout)
    reclen = 1 + sum(TYPES[t][1] for t in layout)
    out = [struct.pack('<BBBBLHH20x', 3, 120, 1, 1, len(rows),
                       33 + 32 * n, reclen)]
    for i, t in enumerate(layout):
        typ, size, deci, _ = TYPES[t]
        name = (fnames[i] if fnames else fieldname(i)).encode('ascii')
        out.append(struct.pack('<11sc4xBB14x', name, typ, size, deci))
    out.append(b'\r')
    for r, row in enumerate(rows):
        rec = [flag if deleted[r] else b' ']
        for t, v in zip(layout, row):
            raw = TYPES[t][3][v][0].encode('ascii')
            assert len(raw) == TYPES[t][1], (t, raw)
            rec.append(raw)
        out.append(b''.join(rec))
    if eof:
        out.append(b'\x1a')
    return b''.join(out)


def values(layout, rows, deleted):
    """Columns of the records that are not deleted."""
    return [[TYPES[t][3][row[c]][1] for row, d in zip(rows, deleted)
             if not d] for c, t in enumerate(layout)]


def writeraw(fields, rows, deleted=(), eof=True, version=3):
    """fields: [(name, type, size, decimals)]; rows: lists of raw text."""
    reclen = 1 + sum(f[2] for f in fields)
    out = [struct.pack('<BBBBLHH20x', version, 120, 1, 1, len(rows),
                       33 + 32 * len(fields), reclen)]
    for name, typ, size, deci in fields:
        out.append(struct.pack('<11sc4xBB14x', name.encode('ascii'), typ,
                               size, deci))
    out.append(b'\r')
    deleted = set(deleted)
    for r, row in enumerate(rows):
        out.append(b'*' if r in deleted else b' ')
        for (_, _, size, _), raw in zip(fields, row):
            raw = raw if isinstance(raw, bytes) else raw.encode('ascii')
            assert len(raw) == size, (raw, size)
            out.append(raw)
    if eof:
        out.append(b'\x1a')
    return b''.join(out)


def checkraw(pack, fields, cols, want, what, fn):
    """want: {column: list of values}"""
    same(sorted(pack.data), sorted(cols), what + ': keys')
    for k in cols:
        got = [NAN if isinstance(v, float) and v != v else v
               for v in pack(k).tolist()]
        if got != want[k]:
            i = next((i for i, (x, y) in enumerate(zip(got, want[k]))
                      if x != y), min(len(got), len(want[k])))
            expect(False, '%s: channel %d, %d of %d records, differs from '
                   'record %d: %s, want %s', what, k, len(got), len(want[k]),
                   i, repr(got[i:i + 1])[:90], repr(want[k][i:i + 1])[:90])
    same(dict(pack.names), {k: fields[k][0] for k in cols}, what + ': names')
    same(pack.fn, fn, what + ': fn')
    same(pack.mask.tolist(), [True] * len(want[cols[0]]), what + ': mask')


def domains():
    """Whole domains of field values, each in one file: every day of many
    years, every byte of a logical field, every small whole number in every
    position, every ASCII character, wide numbers."""
    jobs = []
    days = []
    for y in (1, 4, 100, 400, 1582, 1899, 1900, 1904, 1970, 1999, 2000, 2001,
              2024, 2100, 9999):
        d = datetime.date(y, 1, 1)
        while d.year == y:
            days.append(d)
            if d == datetime.date.max:
                break
            d += datetime.timedelta(1)
    jobs.append(('days', [('D', b'D', 8, 0)],
                 [['%04d%02d%02d' % (d.year, d.month, d.day)] for d in days],
                 {0: days}))
    yes, no = b'YyTt', b'NnFf'
    logical = [bytes([i]) for i in range(256)]
    jobs.append(('logical', [('L', b'L', 1, 0)], [[x] for x in logical],
                 {0: ['T' if x in yes else 'F' if x in no else '?'
                      for x in logical]}))
    texts = [chr(a) + chr(b) for a in range(128) for b in (0, 32, 42, 65)]
    jobs.append(('text', [('C', b'C', 2, 0)], [[x] for x in texts],
                 {0: texts}))
    for w in (1, 2, 4):
        ints = [i for i in range(-10 ** (w - 1) + 1, 10 ** w)]
        for al, f in (('right', str.rjust), ('left', str.ljust),
                      ('zeros', str.zfill)):
            jobs.append(('ints %d %s' % (w, al), [('N', b'N', w, 0)],
                         [[f(str(i), w)] for i in ints], {0: ints}))
    big = [2 ** k + d for k in range(10, 63) for d in (-1, 0, 1)]
    big = [x for x in big + [-x for x in big] if -2 ** 63 <= x < 2 ** 63]
    jobs.append(('big ints', [('N', b'N', 20, 0)],
                 [[str(x).rjust(20)] for x in big], {0: big}))
    dec = [(s, float(s)) for s in
           [a + '.' + b for a in ('0', '-0', '1', '123456', '-99999', '') for
            b in ('0', '5', '25', '125', '1', '3333333', '000001')]]
    for typ in (b'N', b'F'):
        jobs.append(('decimals %r' % typ, [('X', typ, 18, 7)],
                     [[s.rjust(18)] for s, v in dec], {0: [v for s, v in
                                                          dec]}))
    exps = ['%se%s%d' % (m, s, e) for m in ('1', '-1.5', '9.99') for s in
            ('', '+', '-') for e in (0, 1, 5, 22, 100, 300)]
    jobs.append(('exponents', [('X', b'F', 19, 5)],
                 [[s.rjust(19)] for s in exps], {0: [float(s)
                                                     for s in exps]}))
    # a text column keeps NUL characters inside but numpy drops them at the
    # end, so such texts are left out
    jobs = [(w, f, [r for r in rows if not (w == 'text' and
                                            r[0].endswith('\0'))],
             {0: [v for v in want[0] if not (w == 'text' and
                                             v.endswith('\0'))]})
            for w, f, rows, want in jobs]
    return jobs


def bigcol(kind, n):
    """(type, size, decimals, raw texts, values) of a long column."""
    r = range(n)
    if kind == 'int':
        return b'N', 7, 0, ['%7d' % (i * 7 % 99991 - 500) for i in r], \
            [i * 7 % 99991 - 500 for i in r]
    if kind == 'intgap':
        return b'N', 5, 0, ['%5d' % (i % 1000) if i % 3 else ' ' * 5
                            for i in r], \
            [float(i % 1000) if i % 3 else NAN for i in r]
    if kind == 'num':
        return b'N', 9, 3, ['%9.3f' % (i % 1000 / 8.0 - 60) for i in r], \
            [i % 1000 / 8.0 - 60 for i in r]
    if kind == 'float':
        return b'F', 20, 6, ['%20.6f' % (i % 1000 / 64.0) for i in r], \
            [i % 1000 / 64.0 for i in r]
    if kind == 'date':
        d0 = datetime.date(1900, 1, 1)
        ds = [d0 + datetime.timedelta(i % 60000) for i in r]
        return b'D', 8, 0, [d.strftime('%Y%m%d') for d in ds], ds
    if kind == 'bool':
        return b'L', 1, 0, ['TF?'[i % 3] for i in r], ['TF?'[i % 3]
                                                       for i in r]
    size = int(kind[1:])
    vals = [('%d' % i).ljust(size, 'abcdefghij'[i % 10])[-size:] for i in r]
    return b'C', size, 0, vals, vals


BIGKINDS = ['int', 'intgap', 'num', 'float', 'date', 'bool', 'c3', 'c20',
            'c127', 'c128', 'c199', 'c200', 'c254', 'c255']


def bigfile(kinds, n, delpat):
    """Fields of the given kinds, n records, some deleted."""
    cols = [bigcol(k, n) for k in kinds]
    fields = [(bigname(i), c[0], c[1], c[2]) for i, c in enumerate(cols)]
    deleted = {'none': [], 'first': [0], 'last': [n - 1],
               'odd': range(1, n, 2), 'allbutlast': range(n - 1),
               'late': range(n // 2, n - 1)}[delpat]
    gone = set(deleted)
    rows = list(zip(*[c[3] for c in cols]))
    want = {i: [v for j, v in enumerate(c[4]) if j not in gone]
            for i, c in enumerate(cols)}
    for i, k in enumerate(kinds):       # no blanks left: whole numbers
        if k == 'intgap' and not any(v == NAN for v in want[i]):
            want[i] = [int(v) for v in want[i]]
    return fields, rows, deleted, want


def bigname(i):
    s = 'F%d' % i
    return s if i % 4 else s.ljust(10 + i // 4 % 2, '_')


def bigcases(full):
    j = 0
    for n in (1, 9, 10, 11, 100, 255, 256, 257, 1025, 4097):
        for delpat in ('none', 'first', 'last', 'odd', 'allbutlast', 'late'):
            j += 1
            ks = [BIGKINDS[(j + i) % len(BIGKINDS)] for i in range(3)]
            yield ks, n, delpat
    for n in (32767, 32768, 65535, 65536, 65537, 70001):
        yield ['int'], n, 'none'
        yield ['c3', 'bool'], n, 'odd' if full else 'last'
    for nf in (5, 9, 10, 12, 17, 32, 33, 34, 65, 100, 127, 128, 129, 255,
               256, 257, 600, 2046):
        for delpat in ('none', 'first'):
            small = ['int', 'num', 'bool', 'c3', 'date', 'intgap']
            yield [small[i % 6] for i in range(nf)], 4, delpat
    for k in BIGKINDS:
        for n in (1, 3):
            yield [k], n, 'none'
            yield [k, 'int'], n, 'none'
            yield ['bool', k, 'c255'], n, 'none'
    yield ['c255'] * 256, 3, 'first'       # record length 65281


SOURCES = ('bytes', 'path', 'binfile', 'off')


class Src(object):
    def __init__(self, kind, content):
        self.kind, self.name, self.closer = kind, '', None
        if kind == 'bytes':
            self.arg = io.BytesIO(content)
        elif kind == 'off':
            self.arg = io.BytesIO(b'\x03junk in front' * 3 + content)
            self.arg.seek(len(b'\x03junk in front' * 3))
        elif kind == 'path':
            self.arg = self.name = tm.put(content)
        elif kind == 'binfile':
            self.name = tm.put(content)
            self.arg = self.closer = open(self.name, 'rb')
        elif kind in tm.BINSTREAMS:
            self.arg = self.closer = tm.stream(kind, content)

    def close(self):
        if self.kind != 'path':
            expect(not self.arg.closed, 'stream of the caller was closed')
        if self.closer:
            self.closer.close()


def check(pack, layout, rows, deleted, cols, names, what, fn):
    want = values(layout, rows, deleted)
    n = len(want[0]) if want else 0
    if n == 0 and not pack.data:
        keys = []
    else:
        keys = sorted(cols)
    same(sorted(pack.data), keys, what + ': keys')
    for k in keys:
        same(pm.nlist(pack(k)), want[k], what + ': channel %d' % k)
        t = layout[k]
        if t[0] in 'nf' and n:
            whole = TYPES[t][0] == b'N' and not TYPES[t][2] and not any(
                v == NAN for v in want[k])
            expect(pack(k).dtype.kind == ('i' if whole else 'f'),
                   '%s: channel %d dtype %s', what, k, pack(k).dtype)
        elif t[0] in 'clm' and n:
            expect(pack(k).dtype.kind == 'U', '%s: channel %d dtype %s',
                   what, k, pack(k).dtype)
    same(dict(pack.names), {k: names[k] for k in cols}, what + ': names')
    same(pack.fn, fn, what + ': fn')
    same(pack.mask.tolist(), [True] * n, what + ': mask')
