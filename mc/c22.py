"""C22: column letters and numbers are the same bijection everywhere."""
import itertools
from channelpack import readxl, xlrd
import xlsxgen as xg
import xlsgen as g
import gridmodel as gm
import textmodel as tm
from core import expect, same

PROP = 'C22'
ASSUMPTIONS = ['letters of up to three characters (18278 columns); xlsx '
               'sheets have 16384 columns, xls sheets 256']
ABC = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
ALL = [''.join(p) for n in (1, 2, 3)
       for p in itertools.product(ABC, repeat=n)]     # by counting
NUM = {s: i for i, s in enumerate(ALL)}
XLSX = 16384


def cases(s):
    return sorted(set(''.join(x) for x in itertools.product(
        *[(c, c.lower()) for c in s])))


def letters_case(R, lo, hi):
    for i in range(lo, min(hi, len(ALL))):
        s = ALL[i]
        for v in cases(s):
            same(readxl.letter2num(v), i, 'letter2num(%r)' % v)
            same(readxl.letter2num(v, zbase=False), i + 1,
                 'letter2num(%r, zbase=False)' % v)
            same(list(readxl.normalize_usecols(v)), [i],
                 'normalize_usecols(%r)' % v)
            for rows in ('1', '9', '10', '65536', '1048576'):
                same(tuple(readxl.cellreference(xladdr=v + rows)),
                     (int(rows) - 1, i), 'cellreference(%r)' % (v + rows))
            same(tuple(readxl.cellreference(row=7, xladdr=v)), (7, i),
                 'cellreference(row=7, xladdr=%r)' % v)
        same(xlrd.colname(i), s, 'colname(%d)' % i)
        for r in (0, 8, 9, 65535, 1048575):
            same(xlrd.cellname(r, i), '%s%d' % (s, r + 1),
                 'cellname(%d, %d)' % (r, i))
            same(xlrd.cellnameabs(r, i), '$%s$%d' % (s, r + 1),
                 'cellnameabs(%d, %d)' % (r, i))
            ref = readxl.cellreference(xladdr=xlrd.cellname(r, i))
            same(tuple(ref), (r, i), 'cellname(%d, %d) and back' % (r, i))
        R.step(5)
    R.state((lo, hi))
    return lo


def lettersall(R, lo, hi):
    for a in range(lo, hi, 50):
        R.do(letters_case, a, a + 50)


def rows_case(R, lo, hi, col):
    for r in range(lo, hi):
        a = '%s%d' % (ALL[col], r + 1)
        same(tuple(readxl.cellreference(xladdr=a)), (r, col),
             'cellreference(%r)' % a)
        same(xlrd.cellname(r, col), a, 'cellname(%d, %d)' % (r, col))
    R.step(hi - lo)
    R.state((lo, hi, col))
    return lo


def rows(R, lo, hi, col):
    for a in range(lo, hi, 1000):
        R.do(rows_case, a, min(a + 1000, hi), col)


def ranges_case(R, a, b, form):
    """A column selection string of one range and maybe more."""
    x, y = ALL[a], ALL[b]
    if form == 'lower':
        x, y = x.lower(), y.lower()
    if form == 'mixed':
        x, y = x.lower(), y.upper()
    text, want = '%s:%s' % (x, y), list(range(a, b + 1))
    if form == 'after':
        text = '%s, %s' % (ALL[b + 1], text)
        want = want + [b + 1]
    if form == 'before':
        text = ' %s ,%s,%s' % (text, ALL[b + 2], ALL[b + 4].lower())
        want = want + [b + 2, b + 4]
    same(list(readxl.normalize_usecols(text)), want,
         'normalize_usecols(%r)' % text)
    nums = list(want)
    for o in (nums, nums[::-1], tuple(nums), iter(nums)):
        same(list(readxl.normalize_usecols(o)), want,
             'normalize_usecols(%r)' % (o,))
    R.step()
    R.state((a, b, form))
    return (a, b, form)


def ranges(R, starts, n):
    for a in starts:
        for b in range(a, a + n):
            for form in ('upper', 'lower', 'mixed', 'after', 'before'):
                R.do(ranges_case, a, b, form)


def address_case(R, col, row, form):
    """One cell of an xlsx sheet at a column: no other."""
    a = ALL[col]
    if form == 'lower':
        a = a.lower()
    a = ('$%s$%d' if form == 'abs' else '%s%d') % (a, row + 1)
    content = xg.package([('S', xg.sheetxml(
        [(' r="%d"' % (row + 1), ['<c r="%s"><v>5</v></c>' % a])]))])
    sh = gm.open_bytes(content).sheet_by_index(0)
    same((sh.nrows, sh.ncols), (row + 1, col + 1), 'cell %s alone: size' % a)
    same(sh.cell_value(row, col), 5.0, 'cell %s' % a)
    if col:
        expect(not any(sh.row_types(row)[:col]), 'cell %s: more cells', a)
    R.step()
    R.state((col, row, form))
    return (col, row, form)


def addresses(R, lo, hi, step):
    for i, col in enumerate(range(lo, hi, step)):
        R.do(address_case, col, i % 2, ('upper', 'lower', 'abs')[i % 3])


def bigrow(R):
    for row in (0, 8, 9, 98, 99, 65535, 65536, 1048575):
        for form in ('upper', 'lower', 'abs'):
            R.do(address_case, row % 3, row, form)


def wide_case(R, order, form):
    """All columns in one row, each holding its number."""
    cols = list(range(XLSX))
    if order == 'reversed':
        cols = cols[::-1]
    elif order == 'evenodd':
        cols = cols[::2] + cols[1::2]
    elif order == 'long':
        cols = sorted(cols, key=lambda c: (-len(ALL[c]), c))
    f = str.lower if form == 'lower' else str
    cells = ['<c r="%s1"><v>%d</v></c>' % (f(ALL[c]), c) for c in cols]
    content = xg.package([('S', xg.sheetxml([(' r="1"', cells)]))])
    sh = gm.open_bytes(content).sheet_by_index(0)
    same((sh.nrows, sh.ncols), (1, XLSX), 'all columns: size')
    same([int(v) for v in sh.row_values(0)], list(range(XLSX)),
         'all columns, %s order' % order)
    R.step(XLSX)
    R.state((order, form))
    return (order, form)


def wide(R, order):
    for form in ('upper', 'lower'):
        R.do(wide_case, order, form)


def widefile(kind):
    """Files of 3 rows where the cell in row r and column c holds
    c * 10 + r (xlsx: only near the carry points)."""
    n = XLSX if kind == 'xlsx' else 256
    if kind == 'xlsx':
        content = xg.package([('S', xg.sheetxml([
            (' r="%d"' % (r + 1), ['<c r="%s%d"><v>%d</v></c>' % (
                ALL[c], r + 1, c * 10 + r) for c in range(n)
                if any(abs(c - e) < 4 for e in EDGEX)])
            for r in range(3)]))])
    else:
        content = g.simple_doc(g.workbook([('S', b''.join(
            g.number(r, c, 0, c * 10 + r) for r in range(3)
            for c in range(n)))]))
    return content, n


def pick_case(R, path, kind, n, text, cols):
    pack = readxl.sheetpack(path, header=False, usecols=text)
    same(sorted(pack.data), sorted(cols), 'usecols=%r' % (text,))
    for c in cols:
        same(pack(c).tolist(), [c * 10.0 + r for r in range(3)],
             'usecols=%r, column %d' % (text, c))
    R.step()
    R.state((kind, str(text)))
    return (kind, tuple(cols))


def cell_case(R, path, kind, r0, c0, r1, c1):
    a = '%s%d' % (ALL[c0], r0 + 1)
    b = '%s%d' % (ALL[c1].lower(), r1 + 1)
    pack = readxl.sheetpack(path, header=False, startcell=a, stopcell=b)
    same(sorted(pack.data), list(range(c0, c1 + 1)), '%s to %s' % (a, b))
    for c in range(c0, c1 + 1):
        same(pack(c).tolist(), [c * 10.0 + r for r in range(r0, r1 + 1)],
             '%s to %s, column %d' % (a, b, c))
    R.step()
    R.state((kind, a, b))
    return (kind, a, b)


EDGE = [0, 1, 24, 25, 26, 27, 51, 52, 53, 77, 78, 254, 255]
EDGEX = EDGE + [256, 675, 676, 677, 701, 702, 703, 728, 1377, 1378, 2053,
                2054, 16382, 16383]


def packs(R, kind, shard, nshards):
    content, n = widefile(kind)
    path = tm.put(content)
    try:
        i = 0
        for c in (range(n) if kind == 'xls' else EDGEX):
            i += 1
            if i % nshards == shard:
                R.do(pick_case, path, kind, n, ALL[c], [c])
                R.do(pick_case, path, kind, n, ALL[c].lower(), [c])
                R.do(pick_case, path, kind, n, [c], [c])
        for c in (EDGEX if kind == 'xlsx' else EDGE):
            for w in (1, 2, 3):
                i += 1
                if i % nshards != shard or c + w > n:
                    continue
                R.do(pick_case, path, kind, n, '%s:%s' % (
                    ALL[c], ALL[c + w - 1]), list(range(c, c + w)))
                R.do(cell_case, path, kind, 0, c, 2, c + w - 1)
                R.do(cell_case, path, kind, 1, c, 1, c + w - 1)
    finally:
        tm.cleanup()


def bounds(tier):
    return ('all letters A..ZZZ in all cases; all rows 1..%d; ranges over the '
            'carry points; %s xlsx columns alone and all 16384 in 4 orders; '
            'all 256 xls columns and carry points of xlsx through sheetpack'
            % (20000 if tier == 'quick' else 1048576,
               'every 13th of the' if tier == 'quick' else 'all'))


def tasks(tier):
    q = tier == 'quick'
    t = [('lettersall', (a, a + 1000)) for a in range(0, len(ALL), 1000)]
    t += [('rows', (0, 20000, 0))]
    if not q:
        t += [('rows', (a, min(a + 50000, 1048576), 27))
              for a in range(20000, 1048576, 50000)]
    for lo in (0, 20, 670, 695, 1370, 2040, 16370):
        t += [('ranges', (range(lo, lo + 12), 14 if q else 40))]
    t += [('ranges', (range(0, 705), 2))]
    t += [('bigrow', ())]
    t += [('wide', (o,)) for o in ('up', 'reversed', 'evenodd', 'long')]
    st = 13 if q else 1
    t += [('addresses', (a, min(a + 1000, XLSX), st))
          for a in range(0, XLSX, 1000)]
    t += [('addresses', (lo, lo + 30, 1)) for lo in (0, 20, 690, 1370)]
    t += [('packs', (k, s, 4)) for k in ('xls', 'xlsx') for s in range(4)]
    return t
