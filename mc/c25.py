"""C25: all accessors of a sheet describe the same grid."""
import itertools
import struct
import xlsgen as g
import xlsxgen as xg
import gridmodel as gm
from gridmodel import EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK
from core import expect, same

PROP = 'C25'
ASSUMPTIONS = ['row and column numbers that are not negative',
               'column accessors are not used with ragged rows']

SST = ['one', 'two']
STYLES = xg.stylesxml([], [0, 14])
# the contents of the n-th cell of a grid
KIND = [(NUMBER, 1.5), (TEXT, 'one'), (BOOL, 1), (DATE, 41000.0),
        (ERROR, 0x2A), (TEXT, 'two'), (NUMBER, -7.0)]
XFS = (0, 0, 14, 0)


def xls_cell(n, r, c, fmt):
    """-> record, cell, own xf"""
    k = n % 8 if fmt else n % 7
    xf = n % 2
    if k == 0:
        return g.number(r, c, xf, 1.5), KIND[0], xf
    if k == 1:
        return g.labelsst(r, c, xf, 0), KIND[1], xf
    if k == 2:
        return g.boolerr(r, c, xf, 1, 0), KIND[2], xf
    if k == 3:
        return g.rk(r, c, 2, 'i', 41000), KIND[3], 2
    if k == 4:
        return g.boolerr(r, c, xf, 0x2A, 1), KIND[4], xf
    if k == 5:
        return g.label(r, c, xf, 'two'), KIND[5], xf
    if k == 6:
        return g.number(r, c, xf, -7.0), KIND[6], xf
    return g.blank(r, c, 3), (BLANK, ''), 3


XLSX = ['<c r="%s"><v>1.5</v></c>', '<c r="%s" t="s"><v>0</v></c>',
        '<c r="%s" t="b"><v>1</v></c>', '<c r="%s" s="1"><v>41000</v></c>',
        '<c r="%s" t="e"><v>#N/A</v></c>',
        '<c r="%s" t="str"><v>two</v></c>', '<c r="%s"><v>-7</v></c>']


def colinfo(c0, c1, xf):
    return g.rec(0x7D, struct.pack('<HHHHHH', c0, c1, 2000, xf, 0, 0))


def rowinfo(r, xf):
    return g.rec(0x208, struct.pack('<HHHHHHI', r, 0, 9, 255, 0, 0,
                                    0x180 | xf << 16))


def merged(areas):
    return g.rec(0xE5, struct.pack('<H', len(areas)) + b''.join(
        struct.pack('<HHHH', *a) for a in areas))


def sheet(cells, kind, rev, ragged, rot, fmts, merge):
    """-> real sheet, grid, xf function or None, size"""
    cells = list(cells)
    grid, own = {}, {}
    if kind == 'xlsx':
        byrow = {}
        for n, (r, c) in enumerate(cells):
            k = (n + rot) % 7
            grid[r, c] = KIND[k]
            byrow.setdefault(r, []).append(XLSX[k] % xg.addr(r, c))
        rows = [(' r="%d"' % (r + 1), v[::-1] if rev else v)
                for r, v in sorted(byrow.items(), reverse=rev)]
        content = xg.package([('S', xg.sheetxml(rows, merge=[
            '%s:%s' % (xg.addr(a, c), xg.addr(b, d))
            for a, b, c, d in merge]))], sst=[xg.si(s) for s in SST],
            styles=STYLES)
        wb = gm.open_bytes(content, ragged_rows=ragged)
        xf = None
    else:
        fmt = kind == 'xlsf'
        recs = []
        for n, (r, c) in enumerate(cells):
            b, cell, x = xls_cell(n + rot, r, c, fmt)
            recs.append(b)
            grid[r, c] = cell
            own[r, c] = x
        if rev:
            recs.reverse()
        head = b''
        if fmts:
            head = colinfo(1, 1, 3) + rowinfo(1, 1)
        body = head + b''.join(recs)
        if merge:
            body += merged(merge)
        content = g.workbook([('S', body)], SST, XFS)
        wb = gm.open_bytes(content, formatting_info=fmt, ragged_rows=ragged)

        def xf(r, c):
            if (r, c) in own:
                return own[r, c]
            if fmts and r == 1:
                return 1
            if fmts and c == 1:
                return 3
            return 15
        if not fmt:
            xf = None
    nr, nc = gm.dims(grid)
    if kind != 'xls':
        for a, b, c, d in merge:
            nr, nc = max(nr, b + 1), max(nc, d + 1)
    return wb.sheet_by_index(0), grid, xf, (nr, nc)


def cellof(x, cell, what):
    expect(x.ctype == cell[0] and gm.same_value(x.value, cell[1]),
           '%s: cell %r:%r, should be %r', what, x.ctype, x.value, cell)


def cellsof(xs, cells, what):
    expect(len(xs) == len(cells), '%s: %d cells, should be %d', what, len(xs),
           len(cells))
    for x, c in zip(xs, cells):
        cellof(x, c, what)


def seqof(xs, want, what):
    xs = list(xs)
    expect(len(xs) == len(want) and all(gm.same_value(a, b)
                                        for a, b in zip(xs, want)),
           '%s: %r, should be %r', what, xs, want)


def raises(f, *args):
    try:
        f(*args)
    except Exception:
        return
    expect(False, '%s%r returned', f.__name__, args)


def case(R, cells, kind, rev, ragged, rot, fmts, merge):
    sh, grid, xf, (nr, nc) = sheet(cells, kind, rev, ragged, rot, fmts, merge)
    same((sh.nrows, sh.ncols), (nr, nc), 'dimensions')
    rows = [[grid.get((r, c), (EMPTY, '')) for c in range(nc)]
            for r in range(nr)]
    if ragged:
        for r in range(nr):
            n = max((c for rr, c in grid if rr == r), default=-1) + 1
            k = sh.row_len(r)
            expect(n <= k <= nc, 'row_len(%d) is %d, should be %d', r, k, n)
            if not merge:
                expect(k == n, 'row_len(%d) is %d, should be %d', r, k, n)
            rows[r] = rows[r][:k]
    ends = range(-nc - 2, nc + 3)
    for r in range(nr):
        row = rows[r]
        vals, typs = [x[1] for x in row], [x[0] for x in row]
        same(sh.row_len(r), len(row), 'row_len(%d)' % r)
        cellsof(sh.row(r), row, 'row(%d)' % r)
        cellsof(sh[r], row, '[%d]' % r)
        seqof(sh.row_values(r), vals, 'row_values(%d)' % r)
        seqof(sh.row_types(r), typs, 'row_types(%d)' % r)
        cellsof(sh.row_slice(r), row, 'row_slice(%d)' % r)
        for a in ends:
            for b in itertools.chain((None,), ends):
                seqof(sh.row_values(r, a, b), vals[a:b], 'row_values%r' %
                      ((r, a, b),))
                seqof(sh.row_types(r, a, b), typs[a:b], 'row_types%r' %
                      ((r, a, b),))
                cellsof(sh.row_slice(r, a, b), row[a:b], 'row_slice%r' %
                        ((r, a, b),))
            seqof(sh.row_values(r, a), vals[a:], 'row_values%r' % ((r, a),))
            seqof(sh.row_types(r, start_colx=a), typs[a:],
                  'row_types%r' % ((r, a),))
            cellsof(sh.row_slice(r, a), row[a:], 'row_slice%r' % ((r, a),))
            seqof(sh.row_values(r, end_colx=a), vals[:a], 'row_values%r' %
                  ((r, None, a),))
            seqof(sh.row_types(r, end_colx=a), typs[:a], 'row_types%r' %
                  ((r, None, a),))
            cellsof(sh.row_slice(r, end_colx=a), row[:a], 'row_slice%r' %
                    ((r, None, a),))
            R.step(12)
        for c in range(len(row)):
            same(sh.cell_type(r, c), row[c][0], 'cell_type')
            expect(gm.same_value(sh.cell_value(r, c), row[c][1]),
                   'cell_value(%d, %d): %r, should be %r', r, c,
                   sh.cell_value(r, c), row[c][1])
            x = sh.cell(r, c)
            cellof(x, row[c], 'cell%r' % ((r, c),))
            cellof(sh[r, c], row[c], '[%r]' % ((r, c),))
            if xf:
                same(sh.cell_xf_index(r, c), xf(r, c), 'xf of %r' % ((r, c),))
                same(x.xf_index, xf(r, c), 'xf of cell %r' % ((r, c),))
            else:
                same(x.xf_index, None, 'xf of cell %r' % ((r, c),))
            R.step(4)
        for c in (len(row), len(row) + 1):
            for f in (sh.cell, sh.cell_value, sh.cell_type):
                raises(f, r, c)
    for r in (nr, nr + 1):
        for f in (sh.row, sh.row_values, sh.row_types, sh.row_slice,
                  sh.row_len):
            raises(f, r)
        for f in (sh.cell, sh.cell_value, sh.cell_type):
            raises(f, r, 0)
    for it in (sh, sh.get_rows(), iter(sh)):
        got = list(it)
        same(len(got), nr, 'rows of iteration')
        for r in range(nr):
            cellsof(got[r], rows[r], 'row %d of iteration' % r)
    if not ragged:
        ends = range(-nr - 2, nr + 3)
        for c in range(nc):
            col = [row[c] for row in rows]
            vals, typs = [x[1] for x in col], [x[0] for x in col]
            seqof(sh.col_values(c), vals, 'col_values(%d)' % c)
            seqof(sh.col_types(c), typs, 'col_types(%d)' % c)
            cellsof(sh.col_slice(c), col, 'col_slice(%d)' % c)
            cellsof(sh.col(c), col, 'col(%d)' % c)
            for a in ends:
                for b in itertools.chain((None,), ends):
                    seqof(sh.col_values(c, a, b), vals[a:b], 'col_values%r' %
                          ((c, a, b),))
                    seqof(sh.col_types(c, a, b), typs[a:b], 'col_types%r' %
                          ((c, a, b),))
                    cellsof(sh.col_slice(c, a, b), col[a:b], 'col_slice%r' %
                            ((c, a, b),))
                    cellsof(sh.col(c, a, b), col[a:b], 'col%r' %
                            ((c, a, b),))
                seqof(sh.col_values(c, end_rowx=a), vals[:a],
                      'col_values%r' % ((c, None, a),))
                seqof(sh.col_types(c, start_rowx=a), typs[a:],
                      'col_types%r' % ((c, a),))
                cellsof(sh.col_slice(c, end_rowx=a), col[:a],
                        'col_slice%r' % ((c, None, a),))
                R.step(15)
    R.state((cells, kind, ragged, merge))
    return nr, nc, len(cells)


def subsets(nr, nc):
    pos = [(r, c) for r in range(nr) for c in range(nc)]
    for bits in range(1 << len(pos)):
        yield tuple(p for i, p in enumerate(pos) if bits >> i & 1)


def grids(R, nr, nc, kind, shard, nshards, merges):
    i = 0
    for cells in subsets(nr, nc):
        for merge in merges:
            i += 1
            if i % nshards != shard:
                continue
            q = i // nshards
            if merge and kind == 'xls':
                continue
            for ragged in (False, True):
                R.do(case, cells, kind, q % 2 == 1, ragged, q % 8,
                     kind == 'xlsf' and q % 3 > 0, merge)


MERGES = ((), ((0, 1, 0, 1),), ((1, 3, 1, 2),), ((0, 0, 0, 3),),
          ((0, 1, 2, 2), (3, 3, 0, 0)))


# -- large sheets -----------------------------------------------------------

def edges(n):
    e = {0, 1, 2, 9, 10, 99, 100, 101, 127, 128, 254, 255, 256, 257, 512, 999,
         1000, 1001, n // 2, n - 2, n - 1, n, n + 1, n + 100, 2 * n}
    e = set(x for x in e if x <= 2 * n)
    return sorted(e | set(-x for x in e))


def big_case(R, n, m, kind, ragged, rev):
    """A full grid of n rows and m columns (every third cell missing when
    ragged), slices at every edge."""
    cells = tuple((r, c) for r in range(n) for c in range(m)
                  if not ragged or (r + c) % 3)
    sh, grid, xf, size = sheet(cells, kind, rev, ragged, 0, False, ())
    same((sh.nrows, sh.ncols), size, 'dimensions')
    rows = [[grid.get((r, c), (EMPTY, '')) for c in range(m)]
            for r in range(n)]
    if ragged:
        for r in range(n):
            k = max((c for c in range(m) if (r, c) in grid), default=-1) + 1
            rows[r] = rows[r][:k]
    for it in (sh, sh.get_rows(), iter(sh)):
        k = 0
        for r, got in enumerate(it):
            cellsof(got, rows[r], 'row %d of iteration' % r)
            k += 1
        same(k, n, 'rows of iteration')
    E = edges(m)
    for r in sorted(set(x for x in edges(n) if 0 <= x < n)):
        row = rows[r]
        vals, typs = [x[1] for x in row], [x[0] for x in row]
        same(sh.row_len(r), len(row), 'row_len(%d)' % r)
        cellsof(sh.row(r), row, 'row(%d)' % r)
        seqof(sh.row_values(r), vals, 'row_values(%d)' % r)
        seqof(sh.row_types(r), typs, 'row_types(%d)' % r)
        for c in range(len(row)):
            cellof(sh.cell(r, c), row[c], 'cell')
            expect(sh.cell_type(r, c) == typs[c] and
                   gm.same_value(sh.cell_value(r, c), vals[c]),
                   'cell (%d, %d)', r, c)
        if r not in (0, 1, n - 1):
            continue
        for a in E:
            for b in itertools.chain((None,), E):
                seqof(sh.row_values(r, a, b), vals[a:b], 'row_values%r' %
                      ((r, a, b),))
                seqof(sh.row_types(r, a, b), typs[a:b], 'row_types%r' %
                      ((r, a, b),))
                cellsof(sh.row_slice(r, a, b), row[a:b], 'row_slice%r' %
                        ((r, a, b),))
                R.step(3)
    for r in (n, n + 1, 2 * n):
        for f in (sh.row, sh.row_values, sh.row_types, sh.row_slice,
                  sh.row_len):
            raises(f, r)
    if not ragged:
        E = edges(n)
        for c in sorted(set(x for x in edges(m) if 0 <= x < m)):
            col = [row[c] for row in rows]
            vals, typs = [x[1] for x in col], [x[0] for x in col]
            seqof(sh.col_values(c), vals, 'col_values(%d)' % c)
            seqof(sh.col_types(c), typs, 'col_types(%d)' % c)
            cellsof(sh.col(c), col, 'col(%d)' % c)
            if c not in (0, m - 1):
                continue
            for a in E:
                for b in itertools.chain((None,), E):
                    seqof(sh.col_values(c, a, b), vals[a:b], 'col_values%r' %
                          ((c, a, b),))
                    seqof(sh.col_types(c, a, b), typs[a:b], 'col_types%r' %
                          ((c, a, b),))
                    if (a, b) in ((0, None),) or abs(a) < 3 or b in (
                            -1, 1, n, -n, 100, -100):
                        cellsof(sh.col_slice(c, a, b), col[a:b],
                                'col_slice%r' % ((c, a, b),))
                        cellsof(sh.col(c, a, b), col[a:b], 'col%r' %
                                ((c, a, b),))
                    R.step(3)
    R.state((n, m, kind, ragged, rev))
    return n, m, kind, ragged


def big(R, n, m, kind):
    for ragged in (False, True):
        for rev in (False, True):
            R.do(big_case, n, m, kind, ragged, rev)


XFEDGE = (0, 1, 2, 14, 15, 16, 127, 128, 254, 255, 256, 257, 511, 512, 1023,
          2047, 2048, 4093, 4094)


def xfs_case(R, what, table):
    """Style numbers of cells, rows and columns, over the whole range.

    table: list of (place, style)"""
    recs, want = [], {}
    for i, (k, x) in enumerate(table):
        if what == 'row':
            recs.append(rowinfo(k, x))
            want[k, 1] = x
        elif what == 'col':
            recs.append(colinfo(k, k, x))
            want[1, k] = x
        else:
            recs.append((g.number(k, 1, x, 1.0), g.blank(k, 1, x),
                         g.labelsst(k, 1, x, 0), g.boolerr(k, 1, x, 1, 0),
                         g.mulblank(k, 1, [x]), g.rk(k, 1, x, 'i', 5),
                         g.formula(k, 1, x, g.fnum(2.0)))[i % 7])
            want[k, 1] = x
    nr = max(r for r, _ in want) + 2
    nc = max(c for _, c in want) + 1
    recs.append(g.number(nr, nc, 3, 1.0))
    content = g.workbook([('S', b''.join(recs))], SST,
                         (0,) * (max(x for _, x in table) + 4))
    sh = gm.open_bytes(content, formatting_info=True).sheet_by_index(0)
    for (r, c), x in want.items():
        same(sh.cell_xf_index(r, c), x, '%s style of %r' % (what, (r, c)))
        same(sh.cell(r, c).xf_index, x, '%s style of %r' % (what, (r, c)))
        R.step(2)
    same(sh.cell_xf_index(nr, nc), 3, 'style of the last cell')
    R.state((what, tuple(table)))
    return what, len(table)


def mulxf_case(R, r, c, styles, kind):
    """Every cell of a multi-cell record has its own style."""
    if kind == 'blank':
        body = g.mulblank(r, c, styles)
    else:
        body = g.mulrk(r, c, [(x, 'i', i) for i, x in enumerate(styles)])
    content = g.workbook([('S', body)], SST, (0,) * (max(styles) + 1))
    sh = gm.open_bytes(content, formatting_info=True).sheet_by_index(0)
    same([sh.cell_xf_index(r, c + i) for i in range(len(styles))],
         list(styles), '%s record at %d, %d: styles' % (kind, r, c))
    same([x.xf_index for x in sh.row(r)[c:]], list(styles),
         '%s record at %d, %d: styles' % (kind, r, c))
    R.step(len(styles))
    R.state((r, c, len(styles), kind, tuple(styles[:3])))
    return len(styles)


def mulxfs(R):
    for kind in ('blank', 'rk'):
        for n in range(1, 257):
            for c in sorted({0, 1, 256 - n}):
                if c + n <= 256:
                    R.do(mulxf_case, n % 3, c,
                         [(i * 7 + n) % 293 for i in range(n)], kind)
                    R.do(mulxf_case, n % 2, c,
                         [(n - i) % 5 for i in range(n)], kind)


def xfs(R):
    for what in ('row', 'col', 'cell'):
        t = [(i + 2, x) for i, x in enumerate(XFEDGE)]
        R.do(xfs_case, what, t)
        R.do(xfs_case, what, [(i + 2, x) for i, x in enumerate(XFEDGE[::-1])])
        for a, b in itertools.permutations((1, 127, 128, 255, 256, 257, 300),
                                           2):
            R.do(xfs_case, what, [(3, a), (5, b), (6, a)])
        R.do(xfs_case, what, [(i, i % 4095) for i in range(200)])


def tasks(tier):
    out = []
    out += [('xfs', ()), ('mulxfs', ())]
    for kind in ('xls', 'xlsf', 'xlsx'):
        out += [('big', (n, m, kind)) for n, m in (
            (1003, 2), (130, 3), (2, 256 if kind != 'xlsx' else 300),
            (101, 5), (4, 130))]
        out.append(('grids', (2, 2, kind, 0, 1, MERGES)))
        for s in range(8):
            out.append(('grids', (3, 3, kind, s, 8,
                                  ((),) if tier == 'quick' else MERGES)))
        if tier != 'quick':
            for s in range(16):
                out.append(('grids', (3, 4, kind, s, 16, ((),))))
                out.append(('grids', (4, 3, kind, s, 16, ((),))))
            out.append(('grids', (1, 8, kind, 0, 1, ((),))))
            out.append(('grids', (8, 1, kind, 0, 1, ((),))))
    return out


def bounds(tier):
    return ('all subsets of the cells of a %s grid (2x2 with merged areas), '
            'as xls, xls with formatting information, and xlsx, ragged or '
            'not, all start and end arguments from -n-2 to n+2 and open; full '
            'grids of up to 1003 rows or 256 columns with arguments at every '
            'edge; style numbers at all edges to 4094'
            % ('3x3' if tier == 'quick' else '3x3, 3x4, 4x3, 1x8, 8x1'))
