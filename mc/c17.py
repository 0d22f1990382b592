"""C17: every xls cell record kind yields the stored value."""
import itertools
from core import expect
import xlsgen as g
import gridmodel as gm
from gridmodel import TEXT, NUMBER, DATE, BOOL, ERROR, BLANK

PROP = 'C17'
ASSUMPTIONS = ['BIFF8', 'no two cell records for one cell',
               'DIMENSIONS, if present, precedes the cells']

SST = ['shared', '', 'sträng \u1234']
XFS = (0, 14, 2)                    # xf 0, 2: number; xf 1: date
NT = {0: NUMBER, 1: DATE, 2: NUMBER}


def f30(x):
    import struct
    return struct.unpack('<Q', struct.pack('<d', x))[0] >> 34


# kind -> function(row, col, variant) -> (bytes, [(col offset, type, value)])
def _rk(r, c, v):
    m, p = [('i', 7), ('i100', -250), ('f', f30(1.5)), ('f100', f30(-3.0)),
            ('i', -1)][v % 5]
    xf = v % 3
    return g.rk(r, c, xf, m, p), [(0, NT[xf], g.rk_value(m, p))]


def _mulrk(n):
    def f(r, c, v):
        items, out = [], []
        for k in range(n):
            m, p = [('i', 7), ('i100', -250), ('f', f30(1.5)),
                    ('f100', f30(-3.0))][(v + k) % 4]
            xf = (v + k) % 3
            items.append((xf, m, p))
            out.append((k, NT[xf], g.rk_value(m, p)))
        return g.mulrk(r, c, items), out
    return f


def _num(r, c, v):
    x = [0.1, -1e300, 0.0, 41000.25, 5e-324][v % 5]
    return g.number(r, c, v % 3, x), [(0, NT[v % 3], x)]


def _numlong(r, c, v):
    # tolerated: rubbish at the end of a NUMBER record
    import struct
    return (g.rec(0x203, struct.pack('<HHHd', r, c, 1, 2.5) + b'\1\2'),
            [(0, DATE, 2.5)])


def _label(r, c, v):
    s = ['plain', '', 'b\u1234', 'é'][v % 4]
    return g.label(r, c, v % 3, s, wide=True if v % 5 == 0 else None), \
        [(0, TEXT, s)]


def _labelx(r, c, v):
    # rich text runs and phonetic data in the string itself, and an empty
    # string without its option byte
    import struct
    t = ['rich', 'w\u1234\xe9', 'x', '\xe9\xff'][v % 4]
    f = v // 4 % 5
    head = struct.pack('<HHH', r, c, v % 3)
    if f == 4:
        return g.rec(0x204, head + b'\0\0'), [(0, TEXT, '')]
    wide = v % 7 == 0 or any(ord(x) > 255 for x in t)
    b = struct.pack('<HB', len(t), wide | f << 2)
    tail = b''
    if f & 2:
        b += struct.pack('<H', 2)
        tail = struct.pack('<HHHH', 0, 1, 1, 0)
    if f & 1:
        b += struct.pack('<i', 6)
        tail += b'\1\0\2\0ab'
    raw = t.encode('utf_16_le' if wide else 'latin_1')
    return g.rec(0x204, head + b + raw + tail), [(0, TEXT, t)]


def _rstr(r, c, v):
    s = ['rich text', 'r\u20ac'][v % 2]
    return g.rstring(r, c, v % 3, s, [(0, 1), (2, 0)][:v % 3]), \
        [(0, TEXT, s)]


def _sst(r, c, v):
    return g.labelsst(r, c, v % 3, v % 3), [(0, TEXT, SST[v % 3])]


def _blank(r, c, v):
    return g.blank(r, c, v % 3), [(0, BLANK, '')]


def _mulblank(n):
    def f(r, c, v):
        return (g.mulblank(r, c, [(v + k) % 3 for k in range(n)]),
                [(k, BLANK, '') for k in range(n)])
    return f


def _bool(r, c, v):
    return g.boolerr(r, c, v % 3, v % 2, 0), [(0, BOOL, v % 2)]


def _bool9(r, c, v):
    return g.boolerr(r, c, 0, 1, 0, b'\0'), [(0, BOOL, 1)]


CODES = sorted(g.ERRORS)


def _err(r, c, v):
    return g.boolerr(r, c, v % 3, CODES[v % 7], 1), \
        [(0, ERROR, CODES[v % 7])]


def _fnum(r, c, v):
    x = [0.1, -1e300, 0.0, 41000.25, 5e-324][v % 5]
    return g.formula(r, c, v % 3, g.fnum(x)), [(0, NT[v % 3], x)]


def _fstr(r, c, v):
    s = ['result', '', 'w\u1234x', 'é'][v % 4]
    return (g.formula(r, c, v % 3, g.fstr()) +
            g.string(s, wide=True if v % 5 == 0 else None),
            [(0, TEXT, s)])


def _fstr_shr(r, c, v):
    mid = (g.shrfmla, g.array, g.tableop)[v % 3](r, c)
    return (g.formula(r, c, 0, g.fstr(), 8) + mid + g.string('shared'),
            [(0, TEXT, 'shared')])


def _fnum_shr(r, c, v):
    mid = (g.shrfmla, g.array, g.tableop)[v % 3](r, c)
    return (g.formula(r, c, 1, g.fnum(3.0), 8) + mid, [(0, DATE, 3.0)])


def _fbool(r, c, v):
    return g.formula(r, c, v % 3, g.fbool(v % 2)), [(0, BOOL, v % 2)]


def _ferr(r, c, v):
    return g.formula(r, c, v % 3, g.ferr(CODES[v % 7])), \
        [(0, ERROR, CODES[v % 7])]


def _fempty(r, c, v):
    return g.formula(r, c, v % 3, g.fempty()), [(0, TEXT, '')]


# the bytes of a special result that mean nothing
JUNK = [bytes(x) for x in ((1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (0, 0, 1, 0, 0),
                           (0, 0, 0, 1, 0), (0, 0, 0, 0, 1),
                           (255,) * 5, (0, 2, 1, 3, 128))]


def _fjunk(r, c, v):
    j = JUNK[v // 5 % 7]
    k = v % 5
    if k == 0:
        return (g.formula(r, c, v % 3, g.fstr(j)) + g.string('res\xe9'),
                [(0, TEXT, 'res\xe9')])
    if k == 1:
        return g.formula(r, c, v % 3, g.fempty(j)), [(0, TEXT, '')]
    if k == 2:
        return (g.formula(r, c, v % 3, g.ferr(CODES[v % 7], j[1:])),
                [(0, ERROR, CODES[v % 7])])
    return (g.formula(r, c, v % 3, g.fbool(k - 3, j[1:])),
            [(0, BOOL, k - 3)])


KINDS = {'num': _num, 'numlong': _numlong, 'rk': _rk, 'mulrk2': _mulrk(2),
         'mulrk3': _mulrk(3), 'mulrk1': _mulrk(1), 'label': _label,
         'labelx': _labelx,
         'rstring': _rstr, 'sst': _sst, 'blank': _blank,
         'mulblank2': _mulblank(2), 'mulblank3': _mulblank(3), 'bool': _bool,
         'bool9': _bool9, 'err': _err, 'fnum': _fnum, 'fstr': _fstr,
         'fstr_shr': _fstr_shr, 'fnum_shr': _fnum_shr, 'fbool': _fbool,
         'ferr': _ferr, 'fempty': _fempty, 'fjunk': _fjunk}
WIDTH = {'mulrk2': 2, 'mulrk3': 3, 'mulblank2': 2, 'mulblank3': 3}
ORDER = sorted(KINDS)
for _n in range(1, 257):
    KINDS['mulrk%d' % _n] = _mulrk(_n)
    KINDS['mulblank%d' % _n] = _mulblank(_n)


def noise(i):
    """Records that hold no cell."""
    return [b'', g.row(0), g.dimensions(1, 1), g.pad(24),
            g.bof(0x20) + g.number(0, 0, 0, 9.0) + g.EOF,
            g.row(5)][i]


def case(R, recs, between, fmt, ragged):
    """recs: list of (kind, row, col, variant)."""
    body, grid = [], {}
    for n, (kind, r, c, v) in enumerate(recs):
        b, cells = KINDS[kind](r, c, v)
        if n == 0 and between == 2:
            body.append(noise(2))
        body.append(b)
        if between != 2:
            body.append(noise(between))
        for dc, ty, val in cells:
            assert (r, c + dc) not in grid
            grid[r, c + dc] = (ty, val)
        R.step()
    content = g.workbook([('S', b''.join(body)),
                          ('T', g.number(1, 1, 0, 4.0))], SST, XFS)
    if not fmt:
        grid = {k: v for k, v in grid.items() if v[0] != BLANK}
    wb = gm.open_bytes(content, formatting_info=fmt, ragged_rows=ragged)
    what = 'records %r' % (recs,)
    gm.check_sheet(wb.sheet_by_index(0), grid, what, ragged)
    gm.check_sheet(wb.sheet_by_index(1), {(1, 1): (NUMBER, 4.0)},
                   what + ' second sheet', ragged)
    R.state((recs, between))
    return sorted(grid.items())


def single(R, kind):
    """Every variant and position, every option."""
    for v in range(35):
        for r, c in ((0, 0), (0, 2), (3, 1)):
            for b in range(6):
                for fmt, rag in ((False, False), (True, False),
                                 (False, True), (True, True)):
                    R.do(case, ((kind, r, c, v),), b, fmt, rag)


def edges(R, kind):
    """Positions at the limits of the sheet."""
    w = WIDTH.get(kind, 1)
    for r, c in ((0, 256 - w), (2, 256 - w), (256, 0), (258, 1)):
        for fmt, rag in ((False, False), (True, True)):
            R.do(case, ((kind, r, c, 3),), 0, fmt, rag)
    R.do(case, ((kind, 65535, 0, 3),), 0, False, True)


def cells_of(rec):
    kind, r, c, v = rec
    return {(r, c + k) for k in range(WIDTH.get(kind, 1))}


def seqs(R, length, kinds, nr, nc, shard, nshards, modes):
    """All sequences of records over disjoint cells of an nr x nc grid."""
    alpha = [(k, r, c) for k in kinds for r in range(nr) for c in range(nc)
             if c + WIDTH.get(k, 1) <= nc + 2]
    i = 0
    for combo in itertools.product(range(len(alpha)), repeat=length):
        used = set()
        ok = True
        for j in combo:
            k, r, c = alpha[j]
            cs = {(r, c + d) for d in range(WIDTH.get(k, 1))}
            if cs & used:
                ok = False
                break
            used |= cs
        if not ok:
            continue
        i += 1
        if i % nshards != shard:
            continue
        q = i // nshards
        recs = tuple(alpha[j] + ((q + n) % 35,) for n, j in enumerate(combo))
        if modes == 'all':
            for fmt, rag in ((False, False), (True, False), (False, True),
                             (True, True)):
                R.do(case, recs, q % 6, fmt, rag)
        else:
            R.do(case, recs, q % 6, q % 2 == 0, q % 4 >= 2)


def order(R, ncells, shard, nshards):
    """All orders of records on all sets of ncells cells of a 3x3 grid."""
    pos = [(r, c) for r in range(3) for c in range(3)]
    i = 0
    for cells in itertools.permutations(pos, ncells):
        i += 1
        if i % nshards != shard:
            continue
        q = i // nshards
        recs = tuple(('num', 'sst', 'bool', 'blank', 'fstr', 'rk')[
            (q // 7 + n * (1 + q % 5)) % 6:][:1] + (r, c, q % 35)
            for n, (r, c) in enumerate(cells))
        R.do(case, tuple((k, r, c, v) for k, r, c, v in recs), 0,
             q % 2 == 0, q % 3 == 0)


def rkcase(R, mode, payloads):
    """Many compressed numbers in one sheet, as RK and MULRK records."""
    body, grid = [], {}
    for i in range(0, len(payloads), 200):
        part = payloads[i:i + 200]
        r = i // 200
        if r % 2:
            body.append(g.mulrk(r, 0, [(0, mode, p) for p in part]))
        else:
            body += [g.rk(r, c, 0, mode, p) for c, p in enumerate(part)]
        for c, p in enumerate(part):
            grid[r, c] = g.rk_value(mode, p)
            R.step()
    wb = gm.open_bytes(g.workbook([('S', b''.join(body))], None, (0,)))
    sh = wb.sheet_by_index(0)
    for (r, c), v in grid.items():
        got = sh.cell_value(r, c)
        expect(sh.cell_type(r, c) == NUMBER and repr(got) == repr(v),
               'RK %s %d is read as %r, stands for %r', mode,
               payloads[r * 200 + c], got, v)
        R.state((mode, payloads[r * 200 + c]))
    return (mode, len(payloads))


def rknum(R, mode, dense):
    if mode[0] == 'i':
        ps = set(range(-dense, dense))
        for k in range(30):
            for d in range(-40, 41):
                for s in (1, -1):
                    p = s * (1 << k) + d
                    if -(1 << 29) <= p < (1 << 29):
                        ps.add(p)
        for k in range(10):
            for d in range(1, 10):
                for s in (1, -1):
                    p = s * d * 10 ** k
                    if -(1 << 29) <= p < (1 << 29):
                        ps.add(p)
    else:
        ps = set()
        for sign in (0, 1):
            for e in range(0, 2047):
                for m in (0, 1, 2, 3, 0x3FFFF, 0x20000, 0x15555):
                    ps.add(sign << 29 | e << 18 | m)
        for x in range(-dense // 8, dense // 8):
            ps.add(f30(float(x)))
            ps.add(f30(x / 8.0))
    ps = sorted(ps)
    for i in range(0, len(ps), 4000):
        R.do(rkcase, mode, tuple(ps[i:i + 4000]))


# -- whole domains of numbers -----------------------------------------------

def double(sign, e, m):
    import struct
    return struct.unpack('<d', struct.pack('<Q', sign << 63 | e << 52 | m))[0]


MANT = (0, 1, 1 << 51, (1 << 52) - 1, 0x8000000000000, 0x5555555555555, 0xFF,
        0xFFFF, 0xFF << 40, 0xF << 48, 1 << 44, 3 << 40, 2 << 40)


def number_case(R, sign, lo, hi, how):
    """All exponents in [lo, hi) x MANT, in NUMBER records or results."""
    body, grid = [], {}
    for e in range(lo, hi):
        for c, m in enumerate(MANT):
            x = double(sign, e, m)
            if how == 'formula':
                body.append(g.formula(e - lo, c, 0, g.fnum(x)))
            else:
                body.append(g.number(e - lo, c, 0, x))
            grid[e - lo, c] = (NUMBER, x)
    R.step(len(grid))
    wb = gm.open_bytes(g.workbook([('S', b''.join(body))], None, (0,)))
    gm.check_sheet(wb.sheet_by_index(0), grid, 'numbers in %s records' % how)
    R.state((sign, lo, hi, how))
    return sign, lo, how


def doubles(R, how):
    for sign in (0, 1):
        for lo in range(0, 2047, 89):
            R.do(number_case, sign, lo, min(lo + 89, 2047), how)


# -- many cells -------------------------------------------------------------

def many_case(R, kind, pos, fmt, nsst):
    """One kind of record at many places of one sheet."""
    body, grid = [], {}
    for i, (r, c) in enumerate(pos):
        b, cells = KINDS[kind](r, c, i)
        body.append(b)
        for dc, ty, val in cells:
            grid[r, c + dc] = (ty, val)
    R.step(len(pos))
    if not fmt:
        grid = {k: v for k, v in grid.items() if v[0] != BLANK}
    wb = gm.open_bytes(g.workbook([('S', b''.join(body))], SST, XFS),
                       formatting_info=fmt, ragged_rows=True)
    sh = wb.sheet_by_index(0)
    what = '%d %s records' % (len(pos), kind)
    same = gm.same_value
    expect(sh.nrows == gm.dims(grid)[0] and sh.ncols == gm.dims(grid)[1],
           '%s: dimensions (%d, %d), should be %r', what, sh.nrows, sh.ncols,
           gm.dims(grid))
    left = dict(grid)
    for r in range(sh.nrows):
        vals, typs = sh.row_values(r), sh.row_types(r)
        for c in range(len(vals)):
            ty, v = left.pop((r, c), (0, ''))
            expect(typs[c] == ty and same(vals[c], v), '%s: cell (%d, %d) is '
                   'type %d value %r, should be type %d value %r', what, r, c,
                   typs[c], vals[c], ty, v)
    expect(not left, '%s: cells missing: %.200r', what, left)
    R.state((kind, len(pos), fmt))
    return kind, len(pos), fmt


def many(R, kind):
    w = WIDTH.get(kind, 1)
    rows = sorted(set(x for k in range(1, 17) for x in
                      (2 ** k - 1, 2 ** k, 2 ** k + 1) if x < 65536))
    for fmt in (False, True):
        if gm.BLANK and KINDS[kind] in (KINDS['blank'], KINDS['mulblank2'],
                                        KINDS['mulblank3']) and not fmt:
            continue
        R.do(many_case, kind, [(r, c) for r in rows for c in (0, 255 - w)],
             fmt, 0)
        R.do(many_case, kind, [(r, c) for r in range(3)
                               for c in range(0, 257 - w, w)], fmt, 0)
        R.do(many_case, kind, [(r, 0) for r in range(2100)], fmt, 0)


def widemul(R):
    """Multi-cell records of every width to the whole row."""
    for n in range(1, 257):
        for kind in ('mulrk', 'mulblank'):
            for c in sorted({0, 1, 256 - n}):
                if c + n <= 256:
                    R.do(case, (('%s%d' % (kind, n), 1, c, n),), 0, True,
                         n % 2 == 0)


def bigsst_case(R, n):
    idx = sorted(set(x for k in range(0, 18) for x in (
        2 ** k - 1, 2 ** k, 2 ** k + 1) if x < n) | {n - 1})[::-1]
    sst, recs, cur = [], [], b''
    for i in range(n):
        one = g.ustr('s%d' % i)
        if len(cur) + len(one) > 8000:
            recs.append(cur)
            cur = b''
        cur += one
    recs.append(cur)
    import struct
    raw = g.rec(0xFC, struct.pack('<II', n, n) + recs[0]) + b''.join(
        g.rec(0x3C, x) for x in recs[1:])
    body = b''.join(g.labelsst(i, 3, 0, k) for i, k in enumerate(idx))
    wb = gm.open_bytes(g.workbook([('S', body)], raw, (0,)))
    gm.check_sheet(wb.sheet_by_index(0), {
        (i, 3): (TEXT, 's%d' % k) for i, k in enumerate(idx)},
        'strings of a table of %d' % n)
    R.step(len(idx))
    R.state(('sst', n))
    return n


def bigsst(R):
    for n in (3, 257, 32769, 65535, 65537, 70001):
        R.do(bigsst_case, n)


def user8(name, wide, count, fill, total):
    """The record with the name of the user: count characters announced,
    filled up to a length."""
    import struct
    b = name.encode('utf-16-le' if wide else 'latin-1')
    b = struct.pack('<HB', len(name) if count is None else count, wide) + b
    return g.rec(0x5C, b + fill * (total - len(b)))


GLOBALS = {
    'c': g.rec(0x8C, b'\x2e\0\1\0'), 'p': g.rec(0x42, b'\xb0\4'),
    'b': g.rec(0x56, b'\x15\0'), 's': g.rec(0x293, b'\0\x80\0\xff'),
    'w': g.rec(0x12, b'\0\0') + g.rec(0x40, b'\0\0') + g.rec(
        0x3D, b'\0' * 18), 't': g.rec(0x13D, b'\1\0\2\0'),
    'l': g.rec(0x92, b'\1\0\x11\x22\x33\0'),
    'x': g.rec(0xFF, b'\x08\0' + b'\0' * 8),
    'd': g.rec(0xEB, b'\x0f\0' + b'\0' * 40) + g.rec(0x3C, b'\0' * 9)}


def globals_case(R, parts, name, where, fmt):
    """Records of the globals that have nothing to do with cells."""
    extra = b''.join(GLOBALS[k] for k in parts)
    if name is not None:
        extra += user8(*name)
    body = g.number(0, 0, 1, 3.5) + g.labelsst(1, 1, 0, 2) + g.boolerr(
        2, 0, 0, 1, 0)
    grid = {(0, 0): (DATE, 3.5), (1, 1): (TEXT, SST[2]), (2, 0): (BOOL, 1)}
    content = g.workbook([('S', body), ('T', body)], SST, XFS,
                         **{where: extra})
    wb = gm.open_bytes(content, formatting_info=fmt)
    what = 'other records %r, user %r' % (parts, name)
    expect(wb.sheet_names() == ['S', 'T'], '%s: sheets %r', what,
           wb.sheet_names())
    for i in range(2):
        gm.check_sheet(wb.sheet_by_index(i), grid, what)
    R.step()
    R.state((parts, name, where, fmt))


def globalses(R):
    ks = ''.join(sorted(GLOBALS))
    for n in (1, 2, len(ks)):
        for parts in itertools.permutations(ks, n) if n < 3 else [ks]:
            for where in ('first', 'extra'):
                for fmt in (False, True):
                    R.do(globals_case, ''.join(parts), None, where, fmt)
    for nm in ('', 'x', 'Tom N', 'G\xf6ran', 'n' * 31):
        for wide in (0, 1):
            for total in list(range(34, 44)) + [110, 111, 112]:
                for fill in (b' ', b'\0'):
                    for count in (None, 2, 40, 54, 200):
                        if count is not None and count > len(nm) and wide \
                                and fill == b'\0' and count * 2 + 3 > total:
                            continue    # cut inside a character
                        R.do(globals_case, '', (nm, wide, count, fill,
                                                total), 'first', False)


def bounds(tier):
    return ('%d record kinds x 35 variants x 8 positions x 4 option sets; '
            'all sequences of 2 records of all kinds on a 2x3 grid, of 3 '
            'records of %s kinds on 2x2; all orders of %d cells on 3x3; RK: '
            'all ints below %d and around powers of 2 and 10, all exponents '
            'x 7 mantissas; numbers and formula results of all exponents x 13 '
            'mantissas x sign; each kind at all row and column edges and at '
            '2100 places; shared string tables to 70001' % (
                (len(ORDER), '8', 4, 20000) if tier == 'quick' else
                (len(ORDER), 'all', 5, 400000)))


def tasks(tier):
    q = tier == 'quick'
    t = [('single', (k,)) for k in ORDER] + [('edges', (k,)) for k in ORDER]
    t += [('doubles', (h,)) for h in ('number', 'formula')]
    t += [('many', (k,)) for k in ORDER] + [('bigsst', ()), ('widemul', ()),
                                             ('globalses', ())]
    t += [('rknum', (m, 20000 if q else 400000))
          for m in ('i', 'i100', 'f', 'f100')]
    t += [('seqs', (2, ORDER, 2, 3 if not q else 2, s, 8,
                    'all' if not q else 'one')) for s in range(8)]
    few = ['num', 'mulrk2', 'sst', 'mulblank2', 'bool', 'fstr', 'fempty',
           'err']
    t += [('seqs', (3, few if q else ORDER, 2, 2, s, 32, 'one'))
          for s in range(32)]
    t += [('order', (n, s, 8)) for n in (3, 4) + (() if q else (5,))
          for s in range(8)]
    return t
