"""C27: workbooks of every older xls version are read as what they store."""
import datetime
import io
import itertools
from core import expect, same
import xlsgen as g
import biffgen as bg
import gridmodel as gm
import packmodel as pm
import textmodel as tm
from gridmodel import TEXT, NUMBER, DATE, BOOL, ERROR, BLANK
from channelpack.readxl import sheetpack

PROP = 'C27'
ASSUMPTIONS = ['single byte codepages', 'no two cell records for one cell',
               'formats are stored before the styles that use them and '
               'styles before the cells']

FORMATS = ('General', '0.00', 'dd/mm/yy', 'h:mm', '@')
ISDATE = (False, False, True, True, False)
XFS = (0, 2, 1, 3, 4)               # xf -> format
NT = [DATE if ISDATE[f] else NUMBER for f in XFS]
CODES = sorted(g.ERRORS)
NUMS = (0.1, -1e300, 0.0, 41000.25, 5e-324, 2958465.0)
STRS = ('plain', '', 'a', 'né', 'x' * 200)


def _f30(x):
    import struct
    return struct.unpack('<Q', struct.pack('<d', x))[0] >> 34


RKS = (('i', 7), ('i100', -250), ('f', _f30(1.5)), ('f100', _f30(-3.0)),
       ('i', -1))


def _num(w, r, c, v, x):
    return w.number(r, c, x, NUMS[v % 6]), [(0, NT[x], NUMS[v % 6])]


def _int(w, r, c, v, x):
    i = (0, 1, 65535, 300, 256)[v % 5]
    return w.integer(r, c, x, i), [(0, NT[x], float(i))]


def _rk(w, r, c, v, x):
    return w.rk(r, c, x, *RKS[v % 5]), [(0, NT[x], g.rk_value(*RKS[v % 5]))]


def _mulrk(w, r, c, v, x):
    items, out = [], []
    for k in range(2):
        xf = (x + k) % 5
        items.append((xf,) + RKS[(v + k) % 5])
        out.append((k, NT[xf], g.rk_value(*RKS[(v + k) % 5])))
    return w.mulrk(r, c, items), out


def _label(w, r, c, v, x):
    return w.label(r, c, x, STRS[v % 5]), [(0, TEXT, STRS[v % 5])]


def _rstr(w, r, c, v, x):
    return (w.rstring(r, c, x, STRS[v % 5], [(0, 1), (2, 0)][:v % 3]),
            [(0, TEXT, STRS[v % 5])])


def _blank(w, r, c, v, x):
    return w.blank(r, c, x), [(0, BLANK, '')]


def _mulblank(w, r, c, v, x):
    return w.mulblank(r, c, [x, (x + 1) % 5]), [(0, BLANK, ''),
                                                (1, BLANK, '')]


def _bool(w, r, c, v, x):
    return w.boolerr(r, c, x, v % 2, 0), [(0, BOOL, v % 2)]


def _err(w, r, c, v, x):
    return w.boolerr(r, c, x, CODES[v % 7], 1), [(0, ERROR, CODES[v % 7])]


def _fnum(w, r, c, v, x):
    return (w.formula(r, c, x, g.fnum(NUMS[v % 6])),
            [(0, NT[x], NUMS[v % 6])])


def _fstr(w, r, c, v, x):
    return (w.formula(r, c, x, g.fstr()) +
            (b'', w.array(r, c), w.tableop(r, c))[v % 3] +
            w.string(STRS[v % 5]), [(0, TEXT, STRS[v % 5])])


def _farr(w, r, c, v, x):
    return (w.formula(r, c, x, g.fnum(2.5)) +
            (w.array(r, c), w.tableop(r, c))[v % 2], [(0, NT[x], 2.5)])


def _fbool(w, r, c, v, x):
    return w.formula(r, c, x, g.fbool(v % 2)), [(0, BOOL, v % 2)]


def _ferr(w, r, c, v, x):
    return (w.formula(r, c, x, g.ferr(CODES[v % 7])),
            [(0, ERROR, CODES[v % 7])])


def _fempty(w, r, c, v, x):
    return w.formula(r, c, x, g.fempty()), [(0, TEXT, '')]


KINDS = {'num': _num, 'int': _int, 'rk': _rk, 'mulrk': _mulrk,
         'label': _label, 'rstring': _rstr, 'blank': _blank,
         'mulblank': _mulblank, 'bool': _bool, 'err': _err, 'fnum': _fnum,
         'fstr': _fstr, 'farr': _farr, 'fbool': _fbool, 'ferr': _ferr}
WIDTH = {'mulrk': 2, 'mulblank': 2}


def kinds(version):
    common = ['num', 'label', 'blank', 'bool', 'err', 'fnum', 'fstr', 'farr',
              'fbool', 'ferr']
    if version in bg.B2:
        return common + ['int']
    if version in ('30', '40', '4W'):
        return common + ['rk']
    return common + ['rk', 'mulrk', 'rstring', 'mulblank']


def build(w, recs, noise):
    body, grid = [], {}
    for n, (kind, r, c, v, x) in enumerate(recs):
        b, cells = KINDS[kind](w, r, c, v, x)
        body.append(b)
        body.append((b'', w.row(r), g.pad(12), w.row(r + 1, 1))[noise])
        for dc, ty, val in cells:
            grid[r, c + dc] = (ty, val)
    return b''.join(body), grid


def case(R, version, recs, noise, fmt, ragged, ixfe, codepage, odd):
    enc = 'latin-1' if codepage is None else 'cp%d' % codepage
    w = bg.Writer(version, enc, FORMATS, XFS, ixfe)
    body, grid = build(w, recs, noise)
    sheets = [('Só', body)]
    if version in ('4W', '50', '70'):
        sheets.append(('T', w.number(1, 1, 0, 4.0)))
    content = w.book(sheets, codepage, odd=odd)
    if not fmt:
        grid = {k: v for k, v in grid.items() if v[0] != BLANK}
    wb = gm.open_bytes(content, formatting_info=fmt, ragged_rows=ragged)
    what = 'BIFF %s records %r' % (version, recs)
    gm.check_sheet(wb.sheet_by_index(0), grid, what, ragged)
    same(wb.nsheets, len(sheets), what + ': number of sheets')
    if len(sheets) > 1:
        same(wb.sheet_names(), [s[0] for s in sheets], what + ': sheet names')
        gm.check_sheet(wb.sheet_by_index(1), {(1, 1): (NUMBER, 4.0)},
                       what + ' second sheet', ragged)
    same(wb.datemode, 0, what + ': date system')
    R.step(len(recs))
    R.state((version, recs, noise, fmt, ragged, ixfe, codepage, odd))
    return (version, sorted(grid.items()))


MODES = ((False, False), (True, False), (False, True), (True, True))


def single(R, version, kind):
    ix = (False, True) if version == '21' else (False,)
    odds = (False, True) if version in ('20', '21', '30', '40') else (False,)
    for v in range(35):
        for x in range(5):
            for r, c in ((0, 0), (0, 2), (3, 1)):
                i = v + x + r
                for ixfe in ix:
                    for odd in odds:
                        fmt, rag = MODES[i % 4]
                        R.do(case, version, ((kind, r, c, v, x),), i % 4,
                             fmt, rag, ixfe, (None, 1252)[v % 2], odd)
    w = WIDTH.get(kind, 1)
    for r, c in ((0, 256 - w), (2, 255 - w), (256, 0)):
        for fmt, rag in MODES[:2]:
            R.do(case, version, ((kind, r, c, 3, 1),), 0, fmt, rag, False,
                 None, False)
    R.do(case, version, ((kind, 16383, 0, 3, 1),), 0, False, True, False,
         None, False)


def seqs(R, version, length, ks, nr, nc, shard, nshards):
    alpha = [(k, r, c) for k in ks for r in range(nr) for c in range(nc)]
    i = 0
    for combo in itertools.product(alpha, repeat=length):
        used, ok = set(), True
        for k, r, c in combo:
            cs = {(r, c + d) for d in range(WIDTH.get(k, 1))}
            ok = ok and not cs & used
            used |= cs
        if not ok:
            continue
        i += 1
        if i % nshards != shard:
            continue
        q = i // nshards
        recs = tuple(a + ((q + n) % 35, (q // 5 + 2 * n) % 5)
                     for n, a in enumerate(combo))
        fmt, rag = MODES[q % 4]
        R.do(case, version, recs, q // 4 % 4, fmt, rag, q % 3 == 0,
             (None, 1252)[q // 2 % 2], False)


def fmtcase(R, version, formats, xfs, ixfe):
    """A number in every style."""
    w = bg.Writer(version, 'latin-1', formats, xfs, ixfe)
    dates = {'General': 0, '0.00': 0, '@': 0, 'dd/mm/yy': 1, 'h:mm': 1,
             '"day" 0': 0, 'mmm\\d0;[Red]d': None}
    body, grid = b'', {}
    for i, f in enumerate(xfs):
        body += w.number(i, i % 2, i, i + 0.5)
        grid[i, i % 2] = (DATE if dates[formats[f]] else NUMBER, i + 0.5)
    for fmt in (False, True):
        wb = gm.open_bytes(w.book([('S', body)]), formatting_info=fmt)
        gm.check_sheet(wb.sheet_by_index(0), grid,
                       'BIFF %s formats %r styles %r' % (version, formats,
                                                         xfs))
    R.step()
    R.state((version, formats, xfs, ixfe))
    return (version, formats, xfs)


def formats(R, version, maxf, maxx):
    pool = ('General', '0.00', 'dd/mm/yy', 'h:mm', '"day" 0')
    for nf in range(1, maxf + 1):
        for fs in itertools.permutations(pool, nf):
            for nx in range(1, maxx + 1):
                for xfs in itertools.product(range(nf), repeat=nx):
                    R.do(fmtcase, version, fs, xfs,
                         version == '21' and sum(xfs) % 2 == 1)


def mfcase(R, version, nf, isdate, nx, mult, ixfe, run):
    """Many formats and many styles; `run` cells in a row share a style."""
    fs = tuple(('yyyy"%d"' if i % isdate == 1 else '0.0"%d"') % i
               for i in range(nf))
    xfs = tuple(i * mult % nf for i in range(nx))
    w = bg.Writer(version, 'latin-1', fs, xfs, ixfe)
    body, grid = b'', {}
    for i in range(nx):
        for j in range(run):
            v = i + j / 4.0
            n = i * run + j
            rc = (n // 5, n % 5)
            ty = DATE if xfs[i] % isdate == 1 else NUMBER
            if j == 2:
                body += w.formula(rc[0], rc[1], i, g.fnum(v))
            else:
                body += w.number(rc[0], rc[1], i, v)
            grid[rc] = (ty, v)
    for fmt in (False, True):
        wb = gm.open_bytes(w.book([('S', body)]), formatting_info=fmt)
        what = 'BIFF %s, %d formats, %d styles' % (version, nf, nx)
        sh = wb.sheet_by_index(0)
        gm.check_sheet(sh, grid, what)
        if fmt:
            for rc in grid:
                x = wb.xf_list[sh.cell_xf_index(*rc)]
                same(wb.format_map[x.format_key].format_str,
                     fs[xfs[(rc[0] * 5 + rc[1]) // run]],
                     what + ': format of %r' % (rc,))
    R.step(len(grid))
    R.state((version, nf, isdate, nx, mult, ixfe, run))
    return (version, nf, nx)


def manyfmts(R, version):
    ns = (1, 2, 15, 16, 17, 31, 32, 33, 62, 63)
    for nf in ns + (() if version in bg.B2 else (64, 65, 127, 128, 129, 200)):
        for isdate in (2, 3, 7):
            for ixfe in ((False, True, 'change') if version == '21' else
                         (False,)):
                for nx in (5, 62) + ((63, 64, 65, 257, 300) if ixfe or
                                     version not in bg.B2 else ()):
                    R.do(mfcase, version, nf, isdate, nx, (1, 5)[nx % 2],
                         ixfe, 1 + (nf + nx) % 4)


def bookcase(R, version, spec, datemode):
    """Several sheets; those of a BIFF4 workbook have styles of their own."""
    sheets, want = [], []
    main = bg.Writer(version, 'cp1252', ('General', 'yy'), (0, 1))
    for i, (order, cells) in enumerate(spec):
        w = main
        if version == '4W':
            w = bg.Writer(version, 'cp1252',
                          ('General', 'yy')[::-1 if order else 1],
                          (0, 1, 0)[i % 2:])
        body, grid = b'', {}
        for j, x in enumerate(cells):
            body += w.number(j, i, x, 10.0 * i + j)
            f = w.formats[w.xfs[x]]
            grid[j, i] = (DATE if f == 'yy' else NUMBER, 10.0 * i + j)
        sheets.append(('sh%d' % i, body, w) if version == '4W' else
                      ('sh%d' % i, body))
        want.append(grid)
    content = main.book(sheets, 1252, datemode)
    for od in (False, True):
        wb = gm.open_bytes(content, on_demand=od)
        what = 'BIFF %s sheets %r' % (version, spec)
        same(wb.sheet_names(), [s[0] for s in sheets], what + ': names')
        same(wb.datemode, datemode or 0, what + ': date system')
        for i in range(len(sheets)):
            gm.check_sheet(wb.sheet_by_name('sh%d' % i), want[i],
                           what + ' sheet %d' % i)
    R.step(len(spec))
    R.state((version, spec, datemode))
    return (version, spec)


def books(R, version, maxs):
    one = [(o, c) for o in (0, 1) for n in range(0, 3)
           for c in itertools.product((0, 1), repeat=n)]
    for n in range(1, maxs + 1):
        for i, spec in enumerate(itertools.product(one, repeat=n)):
            R.do(bookcase, version, spec, (None, 0, 1)[i % 3])


CODEPAGES = {None: 'latin-1', 437: 'cp437', 850: 'cp850', 1250: 'cp1250',
             1251: 'cp1251', 1252: 'cp1252', 1253: 'cp1253', 1257: 'cp1257',
             10000: 'mac_roman', 32768: 'mac_roman', 32769: 'cp1252',
             10007: 'mac_cyrillic', 367: 'ascii', 720: 'cp720', 737: 'cp737',
             775: 'cp775', 852: 'cp852', 855: 'cp855', 857: 'cp857',
             858: 'cp858', 860: 'cp860', 861: 'cp861', 862: 'cp862',
             863: 'cp863', 864: 'cp864', 865: 'cp865', 866: 'cp866',
             869: 'cp869', 874: 'cp874', 1254: 'cp1254', 1255: 'cp1255',
             1256: 'cp1256', 1258: 'cp1258', 10006: 'mac_greek',
             10029: 'mac_latin2', 10079: 'mac_iceland', 10081: 'mac_turkish'}


def cpcase(R, version, codepage, lo, override):
    """All bytes from lo that the codepage defines, in cells and names."""
    enc = CODEPAGES[codepage]
    text = []
    for b in range(lo, lo + 32):
        try:
            text.append(bytes([b]).decode(enc))
        except UnicodeDecodeError:
            pass
    text = ''.join(t for t in text if len(t.encode(enc)) == 1)
    w = bg.Writer(version, enc)
    body = w.label(0, 0, 0, text) + w.formula(
        1, 0, 0, g.fstr()) + w.string(text[::-1])
    name = text[:9] or 'x'
    grid = {(0, 0): (TEXT, text), (1, 0): (TEXT, text[::-1])}
    stored = codepage
    kw = {}
    if override:
        stored = (None, 437, 1252)[override - 1]
        kw['encoding_override'] = enc
    for fmt in (False, True):
        wb = gm.open_bytes(w.book([(name, body)], stored),
                           formatting_info=fmt, **kw)
        what = 'BIFF %s codepage %r (stored %r)' % (version, codepage, stored)
        gm.check_sheet(wb.sheet_by_index(0), grid, what)
        if version in ('4W', '50', '70'):
            same(wb.sheet_names(), [name], what + ': name')
    R.step()
    R.state((version, codepage, lo, override))
    return (version, codepage, lo)


def codepages(R, version):
    for cp in CODEPAGES:
        for lo in range(32, 256, 32):
            for ov in (0, 1, 2, 3):
                R.do(cpcase, version, cp, lo, ov)


def split_case(R, version, n, cuts, codepage, mid):
    """The string result of a formula, broken over records at cuts."""
    enc = CODEPAGES[codepage] if codepage else 'latin-1'
    text = ''.join(bytes([65 + i * 7 % 58 if i % 3 else 0xe1 + i % 9]).decode(
        enc) for i in range(n))
    w = bg.Writer(version, enc)
    whole = w.string(text)
    code, raw = whole[:2], whole[4:]
    pre = 1 if w.b2 else 2
    ends = [pre + k for k in cuts] + [len(raw)]
    out, at = b'', 0
    for i, e in enumerate(ends):
        out += g.rec(int.from_bytes(code, 'little') if not i else 0x3c,
                     raw[at:e])
        at = e
    body = w.number(0, 0, 0, 1.5) + w.formula(1, 0, 0, g.fstr()) + (
        b'', w.array(1, 0), w.tableop(1, 0))[mid] + out + \
        w.number(1, 1, 0, 2.5) + w.label(2, 0, 0, 'end')
    wb = gm.open_bytes(w.book([('S', body)], codepage))
    gm.check_sheet(wb.sheet_by_index(0), {
        (0, 0): (NUMBER, 1.5), (1, 0): (TEXT, text), (1, 1): (NUMBER, 2.5),
        (2, 0): (TEXT, 'end')}, 'BIFF %s string of %d characters broken at %r'
        % (version, n, cuts))
    R.step()
    R.state((version, n, cuts, codepage, mid))
    return version, n, cuts


def splits(R, version):
    i = 0
    for n in range(1, 8):
        for k in range(4):
            for cuts in itertools.combinations_with_replacement(
                    range(n + 1), k):
                if cuts[-1:] == (n,) and n:
                    continue            # nothing left for a CONTINUE
                for cp in (None, 1251, 437):
                    i += 1
                    R.do(split_case, version, n, cuts, cp, i % 3)
    for n in (200, 255) if version in ('20', '21') else (200, 255, 256, 2000):
        for cuts in ((n - 1,), (1,), (n // 2,), (100, 101, 150)):
            R.do(split_case, version, n, cuts, 1252, 0)


def packcase(R, version, rows, datemode):
    """Through the reader of sheets, from a file."""
    w = bg.Writer(version, 'latin-1', FORMATS, XFS)
    body = w.label(0, 0, 0, 'num') + w.label(0, 1, 0, 'txt') + \
        w.label(0, 2, 0, 'day')
    epoch = datetime.datetime(1904, 1, 1) if datemode else \
        datetime.datetime(1899, 12, 30)
    want = [[], [], []]
    for i, v in enumerate(rows):
        body += w.number(i + 1, 0, 0, v + 0.5)
        body += w.label(i + 1, 1, 0, 'é%d' % v)
        body += w.number(i + 1, 2, 1, 1000.0 * v + 100.25)
        want[0].append(v + 0.5)
        want[1].append('é%d' % v)
        want[2].append(epoch + datetime.timedelta(days=1000 * v + 100.25))
    content = w.book([('S', body)], None, datemode)
    if version in ('50', '70') and sum(rows) % 2:
        content = g.Doc([('Book', content, None)]).build()
    fn = tm.put(content)
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        pack = sheetpack(fn)
    what = 'BIFF %s rows %r' % (version, rows)
    same(dict(pack.names), {0: 'num', 1: 'txt', 2: 'day'}, what + ': names')
    same([pack(i).tolist() for i in range(3)], want, what + ': data')
    R.step()
    R.state((version, rows, datemode))
    return (version, rows)


def packs(R, version):
    try:
        for n in range(1, 4):
            for i, rows in enumerate(itertools.product((1, 2, 40), repeat=n)):
                for dm in (None, 0, 1):
                    R.do(packcase, version, rows, dm)
    finally:
        tm.cleanup()


def many_case(R, version, n, pat, datemode):
    """Many sheets, each with another style for its numbers."""
    main = bg.Writer(version, 'cp1252', FORMATS, XFS)
    sheets, want = [], []
    for i in range(n):
        w = main
        if version == '4W':
            k = i * pat % 5
            w = bg.Writer(version, 'cp1252', FORMATS[k:] + FORMATS[:k],
                          XFS[:5 - i % 3])
        body, grid = b'', {}
        for x in range(len(w.xfs)):
            f = w.formats[w.xfs[x]]
            body += w.number(x, i % 7, x, 100.0 * i + x)
            grid[x, i % 7] = (DATE if ISDATE[FORMATS.index(f)] else NUMBER,
                              100.0 * i + x)
        body += w.label(6, i % 5, 0, 'n\xe9 %d' % i)
        grid[6, i % 5] = (TEXT, 'n\xe9 %d' % i)
        name = ('sh%d', 'S\xe9 %d', ' %d ', '%d')[pat % 4] % i
        sheets.append((name, body, w) if version == '4W' else (name, body))
        want.append(grid)
    content = main.book(sheets, 1252, datemode)
    for od in (False, True):
        wb = gm.open_bytes(content, on_demand=od)
        what = 'BIFF %s, %d sheets, pattern %d' % (version, n, pat)
        same(wb.sheet_names(), [s[0] for s in sheets], what + ': names')
        same(wb.datemode, datemode or 0, what + ': date system')
        for i in (range(n) if pat % 2 else reversed(range(n))):
            gm.check_sheet(wb.sheet_by_index(i), want[i],
                           what + ' sheet %d' % i)
            expect(wb.sheet_by_name(sheets[i][0]) is wb.sheet_by_index(i),
                   '%s: sheet by name', what)
    R.step(n)
    R.state((version, n, pat, datemode))
    return (version, n, pat)


def manies(R, version):
    for n in (1, 2, 3, 4, 5, 6, 7, 9, 12, 20):
        for pat in range(1, 6):
            for dm in (None, 1):
                R.do(many_case, version, n, pat, dm)


def user(version, kind):
    """Records of the globals that have nothing to do with cells."""
    import struct
    out = b''
    if 'u' in kind:         # name of the user
        out += g.rec(0x5C, (b'\x05me \xe9x').ljust(32))
    if 'c' in kind:         # countries
        out += g.rec(0x8C, struct.pack('<HH', 46, 1))
    if 'b' in kind:         # number of formats
        out += g.rec(0x56, struct.pack('<H', 21))
    if 's' in kind:         # a style
        out += g.rec(0x293, struct.pack('<HBB', 0x8000, 0, 255))
    if 'p' in kind:         # protection, backup, window and the like
        out += g.rec(0x12, b'\0\0') + g.rec(0x40, b'\0\0') + g.rec(
            0x3D, struct.pack('<9H', 0, 0, 100, 100, 0x38, 0, 0, 1, 600))
    if 'f' in kind:         # a font
        out += g.rec(0x31 if version in ('20', '21', '50', '70') else 0x231,
                     struct.pack('<HH', 200, 0) + (
                         b'\x05Arial' if version in ('20', '21') else
                         struct.pack('<H', 0x7fff) + b'\x05Arial'
                         if version in ('30', '40', '4W') else
                         struct.pack('<HHHBBBB', 0x7fff, 400, 0, 0, 0, 0, 0)
                         + b'\x05Arial'))
    return out


def globals_case(R, version, before, inside, codepage, fmt):
    w = bg.Writer(version, 'latin-1', FORMATS, XFS)
    body = w.number(0, 0, 1, 3.5) + w.label(1, 1, 0, 'n\xe9') + w.boolerr(
        2, 0, 0, 1, 0)
    grid = {(0, 0): (DATE, 3.5), (1, 1): (TEXT, 'n\xe9'), (2, 0): (BOOL, 1)}
    sheets = [('S', body)]
    if version in ('4W', '50', '70'):
        sheets.append(('T', body))
    content = w.book(sheets, codepage, extra=user(version, before),
                     insheet=user(version, inside))
    wb = gm.open_bytes(content, formatting_info=fmt)
    what = 'BIFF %s with %r, in the sheets %r' % (version, before, inside)
    same(wb.nsheets, len(sheets), what)
    for i in range(len(sheets)):
        gm.check_sheet(wb.sheet_by_index(i), grid, what)
    R.step()
    R.state((version, before, inside, codepage, fmt))
    return version, before, inside


def globalses(R, version):
    kinds = 'ucbspf'
    subsets = [''.join(c) for n in range(len(kinds) + 1)
               for c in itertools.combinations(kinds, n)]
    for before in subsets:
        for inside in (('', 'c', 'ucp') if version in ('50', '70') else
                       ('',)):
            for cp in (None, 1252):
                for fmt in (False, True):
                    R.do(globals_case, version, before, inside, cp, fmt)


def bounds(tier):
    q = tier == 'quick'
    return ('7 older versions: every record kind x 35 variants x 5 styles x '
            '6 positions; all sequences of %s records on a 2x2 grid; all '
            'lists of <=%d formats and <=3 styles; all books of <=%d sheets; '
            '37 codepages x all their bytes; up to 20 sheets; formula '
            'strings of <= 7 characters broken at all sets of <= 3 places; '
            'all subsets of 6 kinds of other global records' % (('2', 3, 2) if q else
                                                ('2 and 3', 4, 3)))


def tasks(tier):
    q = tier == 'quick'
    t = []
    for v in bg.VERSIONS:
        t += [('single', (v, k)) for k in kinds(v)]
        t += [('formats', (v, 3 if q else 4, 3))]
        t += [('codepages', (v,)), ('packs', (v,)), ('splits', (v,))]
        if v in ('4W', '50', '70'):
            t += [('books', (v, 2 if q else 3)), ('manies', (v,))]
        t += [('globalses', (v,)), ('manyfmts', (v,))]
    for v in bg.VERSIONS:
        t += [('seqs', (v, 2, kinds(v), 2, 2, s, 2)) for s in range(2)]
        if not q:
            t += [('seqs', (v, 3, kinds(v), 2, 2, s, 16)) for s in range(16)]
    return t
