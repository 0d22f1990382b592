"""C15: sheet columns get consistent types and missing values."""
import datetime
import itertools
from channelpack import readxl
import xlsxgen as xg
import xlsgen as g
import textmodel as tm
import packmodel as pm
from core import expect, same

PROP = 'C15'
ASSUMPTIONS = ['no dates of serial 60 in the 1900 system',
               'cell kinds as listed in KINDS']

# kind -> (class, xls record writer, xlsx cell, value); classes: n number,
# t text, d date, b bool, m missing
EPOCH = (datetime.datetime(1899, 12, 30), datetime.datetime(1904, 1, 1))
SST = ['sh', '']

KINDS = {
    'num': ('n', lambda r, c: g.number(r, c, 0, 1.5),
            ('', '<v>1.5</v>'), 1.5),
    'zero': ('n', lambda r, c: g.rk(r, c, 0, 'i', 0), ('', '<v>0</v>'), 0.0),
    'one': ('n', lambda r, c: g.formula(r, c, 0, g.fnum(1.0)),
            (' t="n"', '<f>1</f><v>1</v>'), 1.0),
    'text': ('t', lambda r, c: g.labelsst(r, c, 0, 0),
             (' t="s"', '<v>0</v>'), 'sh'),
    'digits': ('t', lambda r, c: g.label(r, c, 0, '12'),
               (' t="inlineStr"', '<is><t>12</t></is>'), '12'),
    'nil': ('t', lambda r, c: g.labelsst(r, c, 0, 1), (' t="s"', '<v>1</v>'),
            ''),
    'date': ('d', lambda r, c: g.number(r, c, 1, 40000.25),
             (' s="1"', '<v>40000.25</v>'), 40000.25),
    'date2': ('d', lambda r, c: g.rk(r, c, 1, 'i', 61),
              (' s="1"', '<v>61</v>'), 61),
    'true': ('b', lambda r, c: g.boolerr(r, c, 0, 1, 0),
             (' t="b"', '<v>1</v>'), True),
    'false': ('b', lambda r, c: g.boolerr(r, c, 0, 0, 0),
              (' t="b"', '<v>0</v>'), False),
    'error': ('m', lambda r, c: g.boolerr(r, c, 0, 0x2A, 1),
              (' t="e"', '<v>#N/A</v>'), None),
    'errdate': ('m', lambda r, c: g.boolerr(r, c, 1, 0x07, 1),
                (' t="e" s="1"', '<v>#DIV/0!</v>'), None),
    'errnull': ('m', lambda r, c: g.boolerr(r, c, 0, 0x00, 1),
                (' t="e"', '<v>#NULL!</v>'), None),
    'errvalue': ('m', lambda r, c: g.boolerr(r, c, 0, 0x0F, 1),
                 (' t="e"', '<v>#VALUE!</v>'), None),
    'errref': ('m', lambda r, c: g.formula(r, c, 0, g.ferr(0x17)),
               (' t="e"', '<f>A1</f><v>#REF!</v>'), None),
    'errname': ('m', lambda r, c: g.formula(r, c, 1, g.ferr(0x1D)),
                (' t="e" s="1"', '<f>A1</f><v>#NAME?</v>'), None),
    'errnum': ('m', lambda r, c: g.boolerr(r, c, 0, 0x24, 1),
               (' t="e"', '<v>#NUM!</v>'), None),
    'fnull': ('m', lambda r, c: g.formula(r, c, 0, g.ferr(0x00)),
              (' t="e"', '<f>A1</f><v>#NULL!</v>'), None),
    'ftrue': ('b', lambda r, c: g.formula(r, c, 0, g.fbool(1)),
              (' t="b"', '<f>A1</f><v>1</v>'), True),
    'fnil': ('t', lambda r, c: g.formula(r, c, 0, g.fempty()),
             (' t="str"', '<f>A1</f><v></v>'), ''),
    'none': ('m', lambda r, c: b'', None, None),
    'blank': ('m', lambda r, c: g.blank(r, c, 1), (' s="1"', ''), None),
}
FULL = tuple(KINDS)
CORE = ('num', 'text', 'date', 'true', 'error', 'none')
MOST = ('num', 'zero', 'text', 'nil', 'date', 'true', 'false', 'errdate',
        'none', 'blank')


def rule(kinds, mode):
    """The typing rules: list of values as in the finished channel."""
    cls = set(KINDS[k][0] for k in kinds)
    if cls <= set('nm'):
        return 'f', [pm.NAN if KINDS[k][0] == 'm' else KINDS[k][3]
                     for k in kinds]
    if cls <= set('tm'):
        return 'U', ['' if KINDS[k][0] == 'm' else KINDS[k][3]
                     for k in kinds]
    vals = []
    for k in kinds:
        v = KINDS[k][3]
        if KINDS[k][0] == 'd':
            v = EPOCH[mode] + datetime.timedelta(v)
        vals.append(v)
    return 'O', vals


def xls_sheet(cols):
    return b''.join(g.number(r, 0, 0, r) + b''.join(
        KINDS[col[r]][1](r, c + 1) for c, col in enumerate(cols))
        for r in range(len(cols[0])))


def xlsx_sheet(cols):
    rows = []
    for r in range(len(cols[0])):
        cells = ['<c r="A%d"><v>%d</v></c>' % (r + 1, r)]
        for c, col in enumerate(cols):
            x = KINDS[col[r]][2]
            if x is not None:
                cells.append('<c r="%s"%s>%s</c>' % (xg.addr(r, c + 1), x[0],
                                                     x[1]))
        rows.append((' r="%d"' % (r + 1), cells))
    return xg.sheetxml(rows)


def content(kind, cols, mode, pos=0, total=1):
    """A file with a first column of numbers and the given columns, in sheet
    ``pos`` of ``total``; the others hold other columns."""
    sheets = [('S%d' % i, cols if i == pos else cols[::-1] +
               [('num',) * len(cols[0])] * (i % 2)) for i in range(total)]
    if kind == 'xls':
        return g.simple_doc(g.workbook([(n, xls_sheet(x)) for n, x in sheets],
                                       SST, (0, 14), datemode=mode))
    return xg.package([(n, xlsx_sheet(x)) for n, x in sheets],
                      [xg.si(s) for s in SST], xg.stylesxml([], [0, 14]),
                      date1904=str(mode))


def columns_case(R, kind, mode, cols, pos=0, total=1, sheet=0):
    path = tm.put(content(kind, cols, mode, pos, total))
    n = len(cols[0])
    last = max(c for c, col in enumerate(cols) if set(col) != {'none'}) + 1 \
        if any(set(col) - {'none', 'blank'} for col in cols) else 0
    pack = readxl.sheetpack(path, sheet, header=False)
    expect(set(range(last + 1)) >= set(pack.data) and 0 in pack.data and
           len(pack.data) >= 1, 'keys %r', sorted(pack.data))
    for c, col in enumerate(cols):
        if c + 1 not in pack.data:
            expect(all(KINDS[k][0] == 'm' for x in cols[c:] for k in x),
                   'column %d is not there', c + 1)
            continue
        check(pack(c + 1), col, mode, '%s, date system %d, column of %s' % (
            kind, mode, ', '.join(col)))
        R.step()
        R.state((mode, col))
    return kind, mode, cols[0]


def check(a, col, mode, what):
    dt, want = rule(col, mode)
    if dt == 'f':
        expect(a.dtype.kind == 'f', '%s: dtype %s', what, a.dtype)
        same(pm.nlist(a), want, what)
    elif dt == 'U':
        expect(a.dtype.kind == 'U', '%s: dtype %s', what, a.dtype)
        same(a.tolist(), want, what)
    else:
        got = a.tolist()
        expect(len(got) == len(want) and all(
            type(x) is type(y) and x == y for x, y in zip(got, want)),
            '%s: got %r, want %r', what, got, want)


def all_columns(R, kind, mode, names, n, shard, nshards, width=250):
    try:
        it = list(itertools.product(names, repeat=n))[shard::nshards]
        for i in range(0, len(it), width):
            R.do(columns_case, kind, mode, it[i:i + width])
    finally:
        tm.cleanup()


def part_case(R, kind, mode, col, header, a, b):
    """Only the cells of the range decide: the range is rows a..b."""
    n = len(col)
    path = tm.put(content(kind, [col, ('num',) * n], mode))
    hdr = 'B1' if header else False
    pack = readxl.sheetpack(path, header=hdr, startcell='B%d' % (a + 1),
                            stopcell='B%d' % (b + 1))
    same(sorted(pack.data), [1], 'keys')
    check(pack(1), col[a:b + 1], mode, '%s, rows %d to %d of %s' % (
        kind, a + 1, b + 1, ', '.join(col)))
    R.step()
    R.state((mode, col, a, b))
    return kind, col, a, b


def parts(R, kind, mode, names, n, shard, nshards):
    try:
        for i, col in enumerate(itertools.product(names, repeat=n)):
            if i % nshards != shard:
                continue
            for a in range(n):
                for b in range(a, n):
                    R.do(part_case, kind, mode, col, False, a, b)
    finally:
        tm.cleanup()


def headed_case(R, kind, mode, col):
    """With a header row of text in the range: the header cell is not part
    of the column."""
    c2 = ('text',) + col
    path = tm.put(content(kind, [c2, ('text',) + ('num',) * len(col)], mode))
    pack = readxl.sheetpack(path, startcell='B1')
    same(dict(pack.names), {1: 'sh', 2: 'sh'}, 'names')
    check(pack(1), col, mode, '%s, with header, %s' % (kind, ', '.join(col)))
    check(pack(2), ('num',) * len(col), mode, 'numbers')
    R.step()
    R.state((mode, 'h', col))
    return kind, col


def headed(R, kind, mode, names, n):
    try:
        for col in itertools.product(names, repeat=n):
            R.do(headed_case, kind, mode, col)
    finally:
        tm.cleanup()


# -- many values ------------------------------------------------------------

NUMS = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 2.0 ** 24 + 1, 2.0 ** 31, -2.0 ** 31,
        2.0 ** 53, 2.0 ** 53 - 1, 2.0 ** 63, 1e15 + 0.5, 123456789.123456789,
        1e-5, 1e-300, 1e300, -1e300, 5e-324, 1.7976931348623157e308, 60.0,
        0.5, 40000.25, 1e9, 1e-9, 16777217.0, 4294967297.0]
NUMS += [x + 0.1 for x in range(100)] + [-x * 1e7 for x in range(1, 40)]
TEXTS = [' a', 'a ', '  ', 'nan', 'None', '1', '1e5', '-', 'True', '#N/A',
         'a\nb', 'a\tb', 'l\xe5da', '\u4e2d', '\U0001f600', '\xa0', "'",
         '"', ',', 'NaN', 'inf', '0', 'x' * 254, 'x' * 255, 'x' * 256,
         'y' * 257, 'z' * 1000, '\u4e2d' * 300, 'w' * 2000]
TEXTS += [chr(97 + i) * i for i in range(1, 26)]
# serials and the moment they stand for, in whole milliseconds of a day
MOMENTS = [(d, ms) for d in (61, 62, 366, 1461, 1462, 25569, 36525, 40000,
                             43890, 73050, 2957003)
           for ms in (0, 1, 500, 999, 1000, 1001, 43199999, 43200000, 59999,
                      86399000, 86399001, 86399499, 86399500, 86399999)]
EARLY = [(d, ms) for d in (0, 1, 2, 31, 58, 59)
         for ms in (1, 500, 1000, 21600000, 43200000, 86399000, 86399999)]


def moment(day, ms, mode):
    e = datetime.datetime(1899, 12, 31) if not mode and day < 60 \
        else EPOCH[mode]
    return e + datetime.timedelta(days=day, milliseconds=ms)


def put_values(kind, cls, vals, mode, extra=()):
    """A column B of the values; extra: {row: kind} other cells in it."""
    extra = dict(extra)
    sst = []
    n = len(vals)
    if kind == 'xls':
        body = []
        for r, v in enumerate(vals):
            body.append(g.number(r, 0, 0, r))
            if r in extra:
                body.append(KINDS[extra[r]][1](r, 1))
            elif cls == 't':
                body.append(g.label(r, 1, 0, v))
            elif cls == 'd':
                body.append(g.number(r, 1, 1, v[0] + v[1] / 86400000.0))
            else:
                body.append(g.number(r, 1, 0, v))
        return g.simple_doc(g.workbook([('S', b''.join(body))], SST, (0, 14),
                                       datemode=mode))
    rows = []
    for r, v in enumerate(vals):
        at = xg.addr(r, 1)
        if r in extra:
            x = KINDS[extra[r]][2]
            c = '' if x is None else '<c r="%s"%s>%s</c>' % (at, x[0], x[1])
        elif cls == 't':
            c = '<c r="%s" t="s"><v>%d</v></c>' % (at, len(SST) + len(sst))
            sst.append(v)
        elif cls == 'd':
            c = '<c r="%s" s="1"><v>%r</v></c>' % (
                at, v[0] + v[1] / 86400000.0)
        else:
            c = '<c r="%s"><v>%r</v></c>' % (at, v)
        rows.append((' r="%d"' % (r + 1),
                     ['<c r="A%d"><v>%d</v></c>' % (r + 1, r), c]))
    return xg.package([('S', xg.sheetxml(rows))],
                      [xg.si(s) for s in SST + sst],
                      xg.stylesxml([], [0, 14]), date1904=str(mode))


def values_case(R, kind, mode, cls, vals, extra=()):
    path = tm.put(put_values(kind, cls, vals, mode, extra))
    pack = readxl.sheetpack(path, header=False, startcell='B1')
    extra = dict(extra)
    classes = set(KINDS[k][0] for k in extra.values())
    what = '%s, date system %d, %d cells %.200r%s' % (
        kind, mode, len(vals), vals, ' with %r' % extra if extra else '')
    if cls == 't' and len(vals) > 3:
        what = '%s, %d texts, with %r' % (kind, len(vals), extra)
    a = pack(1)
    miss, dt = None, 'O'
    if cls == 'n' and classes <= set('nm'):
        miss, dt = pm.NAN, 'f'
    if cls == 't' and classes <= set('tm'):
        miss, dt = '', 'U'
    want = []
    for r, v in enumerate(vals):
        if r in extra:
            k = extra[r]
            v = KINDS[k][3]
            if KINDS[k][0] == 'm':
                v = miss
            elif KINDS[k][0] == 'd':
                v = EPOCH[mode] + datetime.timedelta(v)
        elif cls == 'd':
            v = moment(v[0], v[1], mode)
        want.append(v)
    expect(a.dtype.kind == dt, '%s: dtype %s', what, a.dtype)
    got = pm.nlist(a) if dt == 'f' else a.tolist()
    expect(len(got) == len(want), '%s: %d values', what, len(got))
    for i, (x, y) in enumerate(zip(got, want)):
        expect(type(x) is type(y) and repr(x) == repr(y),
               '%s: record %d is %.300r, want %.300r', what, i, x, y)
    R.step(len(vals))
    R.state((kind, mode, cls, len(vals), sorted(extra.items()),
             repr(vals[:3])))
    return kind, cls, len(vals), dt


def values(R, kind, mode):
    doms = {'n': NUMS, 't': TEXTS, 'd': MOMENTS + EARLY}
    try:
        for cls, dom in doms.items():
            R.do(values_case, kind, mode, cls, dom)
            R.do(values_case, kind, mode, cls, dom[::-1])
            for v in dom:
                R.do(values_case, kind, mode, cls, [v])
            for k in CORE + ('nil', 'false', 'blank'):
                for at in (0, 1, len(dom) // 2, len(dom) - 1):
                    R.do(values_case, kind, mode, cls, dom, [(at, k)])
    finally:
        tm.cleanup()


LONG = {'n': lambda i: i * 0.1 + 1 / 3, 't': lambda i: 'text %d' % i,
        'd': lambda i: (61 + i, (i * 7919) % 86400000)}


def longs(R, kind, mode, n, cls):
    """Long columns, with at most one odd cell at every edge."""
    vals = [LONG[cls](i) for i in range(n)]
    edges = sorted(set(x for x in (0, 1, 9, 10, 99, 100, 127, 128, 255, 256,
                                   499, 500, 999, 1000, 1023, 1024, n // 2,
                                   n - 2, n - 1) if x < n))
    try:
        R.do(values_case, kind, mode, cls, vals)
        for at in edges:
            for k in CORE:
                R.do(values_case, kind, mode, cls, vals, [(at, k)])
    finally:
        tm.cleanup()


def longest(R, kind, mode, n, cls):
    vals = [LONG[cls](i) for i in range(n)]
    try:
        R.do(values_case, kind, mode, cls, vals)
        for k in CORE:
            R.do(values_case, kind, mode, cls, vals, [(n - 1, k)])
    finally:
        tm.cleanup()


def sheets(R, kind, mode, names, n):
    """The same columns in every sheet of several."""
    cols = list(itertools.product(names, repeat=n))
    try:
        for total in (2, 3, 5):
            for pos in range(total):
                for sheet in (pos, 'S%d' % pos):
                    for i in range(0, len(cols), 50):
                        R.do(columns_case, kind, mode, cols[i:i + 50], pos,
                             total, sheet)
    finally:
        tm.cleanup()


def bounds(tier):
    q = tier == 'quick'
    return ('all columns of length <=%d over %d cell kinds and of length %d '
            'over %d kinds, %d over 6; xls and xlsx, both date systems; all '
            'row ranges of columns of length 3; header excluded; columns in '
            'every sheet of 2, 3 and 5; every value '
            'of %d numbers, %d texts, %d moments alone and together; columns '
            'of up to %d cells with no or one odd cell at every edge' % (
                ((3, len(FULL), 4, len(MOST), 6) if q else
                 (4, len(FULL), 5, len(MOST), 7)) + (
                     len(NUMS), len(TEXTS), len(MOMENTS + EARLY),
                     10001 if q else 65536)))


def tasks(tier):
    q = tier == 'quick'
    t = []
    for kind in ('xls', 'xlsx'):
        for mode in (0, 1):
            t += [('values', (kind, mode)),
                  ('sheets', (kind, mode, CORE, 2)),
                  ('sheets', (kind, mode, FULL, 1))]
            for cls in 'ntd':
                if mode and cls != 'd':
                    continue
                t += [('longs', (kind, mode, 258 if q else 1026, cls))]
                t += [('longest', (kind, mode, n, cls))
                      for n in ((1026, 10001) if q else
                                (1026, 10001, 65536))]
            for n in (1, 2, 3):
                t += [('all_columns', (kind, mode, FULL, n, 0, 1))]
            t += [('all_columns', (kind, mode, FULL, n, 0, 1, 1))
                  for n in (1, 2)]
            t += [('all_columns', (kind, mode, MOST, 4, s, 4))
                  for s in range(4)]
            t += [('all_columns', (kind, mode, CORE, n, s, 4)) for n in (5, 6)
                  for s in range(4)]
            t += [('parts', (kind, mode, CORE, 3, s, 2)) for s in range(2)]
            t += [('headed', (kind, mode, CORE, n)) for n in (1, 2, 3)]
            if not q:
                t += [('all_columns', (kind, mode, FULL, 4, s, 8))
                      for s in range(8)]
                t += [('all_columns', (kind, mode, MOST, 5, s, 16))
                      for s in range(16)]
                t += [('all_columns', (kind, mode, CORE, 7, s, 16))
                      for s in range(16)]
    return t
