"""C29: annotations of a sheet are reported at their own cells and leave the
cells alone."""
import itertools
import struct
from core import expect, same
import xlsgen as g
import xlsxgen as xg
import biffgen as bg
import gridmodel as gm
from gridmodel import NUMBER, TEXT

PROP = 'C29'
ASSUMPTIONS = ['records as Excel writes them; the drawing objects of notes '
               'precede the notes',
               'page breaks, merged ranges, row and column information and '
               'rich text only with formatting information for xls']

# -- what a sheet carries -----------------------------------------------------

WIN = ('show_formulas', 'show_grid_lines', 'show_sheet_headers',
       'panes_are_frozen', 'show_zero_values', 'automatic_grid_line_colour',
       'columns_from_right_to_left', 'show_outline_symbols',
       'remove_splits_if_pane_freeze_is_removed', 'sheet_selected',
       'sheet_visible', 'show_in_page_break_preview')


class Ann(object):
    """Expected annotations of one sheet."""

    def __init__(self):
        self.notes = {}
        self.links = []
        self.merged, self.hpb, self.vpb = [], [], []
        self.rowlab, self.collab = [], []
        self.rich = {}
        self.cols, self.rows = {}, {}
        self.plain = dict(
            zip(WIN, (0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0)),
            first_visible_rowx=0, first_visible_colx=0,
            vert_split_pos=0, horz_split_pos=0, horz_split_first_visible=0,
            vert_split_first_visible=0, split_active_pane=0,
            has_pane_record=0, scl_mag_factor=None, defcolwidth=None,
            standardwidth=None, default_row_height=None,
            default_row_height_mismatch=0, default_row_hidden=0,
            default_additional_space_above=0,
            default_additional_space_below=0)


def check_ann(sh, a, fmt, what):
    got = {k: (n.text, list(n.rich_text_runlist or ()), n.author, n.show,
               n.row_hidden, n.col_hidden, n.rowx, n.colx)
           for k, n in sh.cell_note_map.items()}
    same(got, {k: v + k for k, v in a.notes.items()}, what + ': notes')
    links = [dict((f, getattr(h, f)) for f in (
        'frowx', 'lrowx', 'fcolx', 'lcolx', 'type', 'url_or_path', 'desc',
        'target', 'textmark', 'quicktip')) for h in sh.hyperlink_list]
    same(links, a.links, what + ': hyperlinks')
    cover = {}
    for i, h in enumerate(a.links):
        for r in range(h['frowx'], h['lrowx'] + 1):
            for c in range(h['fcolx'], h['lcolx'] + 1):
                cover[r, c] = i
    same({k: [i for i, x in enumerate(sh.hyperlink_list) if x is h]
          for k, h in sh.hyperlink_map.items()},
         {k: [i] for k, i in cover.items()}, what + ': cells with hyperlinks')
    same(sh.row_label_ranges, a.rowlab, what + ': row labels')
    same(sh.col_label_ranges, a.collab, what + ': column labels')
    same({k: getattr(sh, k) for k in a.plain}, a.plain, what + ': settings')
    if not fmt:
        return
    same(sh.merged_cells, a.merged, what + ': merged')
    same(sh.horizontal_page_breaks, a.hpb, what + ': page breaks')
    same(sh.vertical_page_breaks, a.vpb, what + ': page breaks')
    same({k: list(map(tuple, v)) for k, v in
          sh.rich_text_runlist_map.items() if v}, a.rich, what + ': rich text')
    same({k: (c.width, c.xf_index, c.hidden, c.outline_level, c.collapsed)
          for k, c in sh.colinfo_map.items()}, a.cols, what + ': columns')
    same({k: (r.height, r.has_default_height, r.outline_level, r.hidden,
              r.height_mismatch, r.additional_space_above,
              r.additional_space_below) for k, r in sh.rowinfo_map.items()},
         a.rows, what + ': rows')


# -- writers ------------------------------------------------------------------

def obj(oid, typ=0x19, flags=0x4011, tail=b''):
    d = struct.pack('<HHHHH', 0x15, 18, typ, oid, flags) + b'\0' * 12
    if typ == 0x19:
        d += struct.pack('<HH', 0x0D, 22) + b'\1' * 22
    return g.rec(0x5D, d + b'\0\0\0\0' + tail)


def txo(text, cuts, wides, runs, runcut=None):
    """cuts: positions where the text is continued; wides: width of each
    piece; runs: list of (position, font)."""
    units = [text[i:i + 1] for i in range(len(text))]
    out = g.rec(0x1B6, struct.pack('<HH6sHHH', 0x212, 0, b'\0' * 6,
                                   len(text), 8 * len(runs), 0) + b'\0\0')
    edges = [0] + list(cuts) + [len(text)]
    if text:
        for (i, j), w in zip(zip(edges, edges[1:]), wides):
            s = ''.join(units[i:j])
            out += g.rec(0x3C, bytes([w]) + (g.u16(s) if w else
                                             s.encode('latin-1')))
    rb = [struct.pack('<HH4x', *r) for r in runs]
    if runs:
        k = len(rb) if runcut is None else runcut
        out += g.rec(0x3C, b''.join(rb[:k]))
        if rb[k:]:
            out += g.rec(0x3C, b''.join(rb[k:]))
    return out


def note(r, c, oid, author, flags=0, pad=b'\0', wide=None):
    return g.rec(0x1C, struct.pack('<HHHH', r, c, flags, oid) +
                 g.ustr(author, 'H', wide) + pad)


def drawing(n):
    return g.rec(0xEC, b'\x0f\0\4\xf0' + struct.pack('<I', n) + b'\x05' * n)


def nul(s):
    return struct.pack('<I', len(s) + 1) + g.u16(s + '\0')


GUID0 = bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B')
URLM = bytes.fromhex('E0C9EA79F9BACE118C8200AA004BA90B')
FILM = bytes.fromhex('0303000000000000C000000000000046')


def hlink(rect, desc=None, target=None, mon=None, mark=None, tip=None,
          extra=False):
    """mon: None, ('url', text), ('file', uplevels, short, long or None),
    ('unc', text).  Returns bytes and what should be reported."""
    opt, body = 0, b''
    exp = dict(frowx=rect[0], lrowx=rect[1], fcolx=rect[2], lcolx=rect[3],
               type='unknown', url_or_path=None, desc=desc, target=target,
               textmark=mark, quicktip=tip)
    if desc is not None:
        opt |= 0x14
        body += nul(desc)
    if target is not None:
        opt |= 0x80
        body += nul(target)
    if mon is not None:
        opt |= 3
        exp['type'] = {'url': 'url', 'file': 'local file',
                       'unc': 'unc'}[mon[0]]
        if mon[0] == 'url':
            b = g.u16(mon[1] + '\0') + (b'\x07' * 24 if extra else b'')
            body += URLM + struct.pack('<I', len(b)) + b
            exp['url_or_path'] = mon[1]
        elif mon[0] == 'file':
            _, up, short, long = mon
            if up == 0 and False:
                pass
            sp = short.encode('ascii') + b'\0'
            body += (FILM + struct.pack('<HI', up, len(sp)) + sp +
                     b'\xff\xff\xad\xde' + b'\0' * 20)
            if long is None:
                body += struct.pack('<I', 0)
                exp['url_or_path'] = b'..\\' * up + short.encode('ascii')
            else:
                lb = g.u16(long)
                body += (struct.pack('<II', len(lb) + 6, len(lb)) +
                         b'\x03\0' + lb)
                exp['url_or_path'] = long
        else:
            opt |= 0x100
            body += nul(mon[1])
            exp['url_or_path'] = mon[1]
    if mark is not None:
        opt |= 8
        body += nul(mark)
        if mon is None:
            exp['type'] = 'workbook'
    out = g.rec(0x1B8, struct.pack('<HHHH', *rect) + GUID0 + b'\2\0\0\0' +
                struct.pack('<I', opt) + body)
    if tip is not None:
        out += g.rec(0x800, struct.pack('<5H', 0x800, *rect) +
                     g.u16(tip) + b'\0\0')
    return out, exp


def ranges(rs):
    return struct.pack('<H', len(rs)) + b''.join(struct.pack('<HHHH', *r)
                                                for r in rs)


def size(grid, merged):
    """Merged cells are part of the sheet."""
    nr, nc = gm.dims(grid)
    return (max([nr] + [m[1] for m in merged]),
            max([nc] + [m[3] for m in merged]))


def half(rs):
    return [(a, b + 1, c, d + 1) for a, b, c, d in rs]


# -- items: name -> function(Ann, k) -> bytes; k distinguishes repetitions ----

def i_note(a, k):
    text, author = 'note %d' % k, 'me'
    a.notes[k, 2] = (text, [(0, 5)], author, 0, 0, 0)
    return (drawing(8) + obj(k + 1) + drawing(8) +
            txo(text, (), (0,), [(0, 5), (len(text), 0)]) +
            note(k, 2, k + 1, author))


def i_link(a, k):
    b, e = hlink((k, k + 1, 0, 1), desc='d%d' % k, mon=('url', 'http://x/é'),
                 mark='m', tip='tip' if k % 2 else None, extra=True)
    a.links.append(e)
    return b


def i_merge(a, k):
    rs = [(k, k + 1, 0, 3), (7 + k, 7 + k, 1, 2)]
    a.merged += half(rs)
    return g.rec(0xE5, ranges(rs))


def i_hpb(a, k):
    bs = [(k + 2, 0, 255), (k + 9, 1, 3)]
    a.hpb += bs
    return g.rec(0x1B, struct.pack('<H', 2) + b''.join(
        struct.pack('<HHH', *b) for b in bs))


def i_vpb(a, k):
    a.vpb += [(k + 1, 0, 65535)]
    return g.rec(0x1A, struct.pack('<HHHH', 1, k + 1, 0, 65535))


def i_labels(a, k):
    r, c = [(k, k, 0, 0)], [(0, 0, 1, 2), (3, 5, 1, 1)]
    a.rowlab += half(r)
    a.collab += half(c)
    return g.rec(0x15F, ranges(r) + ranges(c))


def window2(a, opt, r0=0, c0=0, preview=0, normal=0):
    for i, n in enumerate(WIN):
        a.plain[n] = opt >> i & 1
    a.plain.update(first_visible_rowx=r0, first_visible_colx=c0)
    return g.rec(0x23E, struct.pack('<HHHHHHHI', opt, r0, c0, 0x40, 0,
                                    preview, normal, 0))


def i_window(a, k):
    return window2(a, (0x6B6, 0x849)[k % 2], k, 1)


def i_pane(a, k):
    v = (1, 2 + k, 3, 4, 2)
    a.plain.update(zip(('vert_split_pos', 'horz_split_pos',
                        'horz_split_first_visible',
                        'vert_split_first_visible', 'split_active_pane'), v),
                   has_pane_record=1)
    return g.rec(0x41, struct.pack('<HHHHBx', *v))


def i_scl(a, k):
    n, d = ((3, 4), (2, 1))[k % 2]
    a.plain['scl_mag_factor'] = n * 100 // d
    return g.rec(0xA0, struct.pack('<HH', n, d))


def colinfo(a, c0, c1, width, xf, flags):
    for c in range(c0, min(c1, 255) + 1):
        a.cols[c] = (width, xf, flags & 1, flags >> 8 & 7, flags >> 12 & 1)
    return g.rec(0x7D, struct.pack('<HHHHHH', c0, c1, width, xf, flags, 0))


def i_col(a, k):
    return colinfo(a, k, k + 1, 3000 + k, 0, (0x1201, 0x0002)[k % 2])


def i_defcol(a, k):
    a.plain['defcolwidth'] = 11 + k
    return g.rec(0x55, struct.pack('<H', 11 + k))


def i_std(a, k):
    a.plain['standardwidth'] = 2000 + k
    return g.rec(0x99, struct.pack('<H', 2000 + k))


def rowinfo(a, r, height, default, level, hidden, mismatch, above, below):
    a.rows[r] = (height, default, level, hidden, mismatch, above, below)
    return g.rec(0x208, struct.pack(
        '<HHHHHHI', r, 0, 5, height | default << 15, 0, 0,
        level | hidden << 5 | mismatch << 6 | above << 28 | below << 29))


def i_row(a, k):
    return rowinfo(a, k, 300 + k, k % 2, 2 + k, (k + 1) % 2, 1, 1, 0)


def i_defrow(a, k):
    b = (5, 10)[k % 2]
    a.plain.update(default_row_height=255 + k,
                   default_row_height_mismatch=b & 1,
                   default_row_hidden=b >> 1 & 1,
                   default_additional_space_above=b >> 2 & 1,
                   default_additional_space_below=b >> 3 & 1)
    return g.rec(0x225, struct.pack('<HH', b, 255 + k))


def i_cond(a, k):
    f = b'\x1e\x07\0'
    out = g.rec(0x1B0, struct.pack('<6H', 3, 1, 0, 2, 0, 2) +
                ranges([(0, 1, 0, 1), (2, 2, 2, 2)]))
    out += g.rec(0x1B1, struct.pack('<BBHHi', 1, 3, 3, 0, 0) + b'\0\0' + f)
    out += g.rec(0x1B1, struct.pack('<BBHHi', 1, 1, 3, 3, 1 << 26) +
                 b'\0\0' + b'\3' * 118 + f + f)
    out += g.rec(0x1B1, struct.pack('<BBHHi', 2, 0, 3, 0, 3 << 28) +
                 b'\0\0' + b'\3' * 12 + f)
    return out


def i_chart(a, k):
    """An embedded chart, with a cell record of its own inside."""
    return (drawing(16) + obj(50 + k, typ=5) +
            g.rec(0x809, struct.pack('<HHHHII', 0x600, 0x20, 0, 1997, 0, 6)) +
            g.number(0, 0, 0, -77.0) + i_merge(Ann(), 0) +
            g.label(20, 5, 0, 'chart') + g.EOF)


def i_shape(a, k):
    """A text box: drawing text that is no note."""
    return (drawing(4) + obj(90 + k, typ=6) +
            txo('box text', (3,), (0, 1), [(0, 1), (8, 0)]))


def i_scroll(a, k):
    d = (struct.pack('<HHHHH', 0x15, 18, 0x11, 70 + k, 0) + b'\0' * 12 +
         struct.pack('<HH', 0x0C, 20) + b'\0' * 4 +
         struct.pack('<5H', 1, 2, 3, 4, 5) + b'\0' * 6 + b'\0' * 4)
    return g.rec(0x5D, d)


def i_auto(a, k):
    """The list box of a filter."""
    d = (struct.pack('<HHHHH', 0x15, 18, 0x14, 80 + k, 0x2101) + b'\0' * 12 +
         struct.pack('<HH', 0x13, 0x1FEE) + b'\2' * 12)
    return g.rec(0x5D, d)


def i_rich(a, k):
    a.rich[k, 3] = [(0, 1), (2, 3 + k)]
    a.extra[k, 3] = (TEXT, 'rich')
    return g.rstring(k, 3, 0, 'rich', [(0, 1), (2, 3 + k)])


def i_unknown(a, k):
    return (g.rec(0x1AD, b'\x0a\0\0\0') + g.rec(0x872, b'\7' * 120) +
            g.rec(0x14, g.ustr('&Chead')) + g.rec(0x3C, b'\0\0'))


def i_country(a, k):
    return g.rec(0x8C, struct.pack('<HH', 1, 46))


ITEMS = {f.__name__[2:]: f for f in (
    i_note, i_link, i_merge, i_hpb, i_vpb, i_labels, i_window, i_pane, i_scl,
    i_col, i_defcol, i_std, i_row, i_defrow, i_cond, i_chart, i_shape,
    i_scroll, i_auto, i_rich, i_unknown, i_country)}


# -- sequences ----------------------------------------------------------------

def seq_case(R, sheets, fmt, demand=False):
    """sheets: per sheet a tuple of item names and 'cell'."""
    parts, want = [], []
    for n, items in enumerate(sheets):
        a = Ann()
        a.extra = {}
        body = g.dimensions(12, 6)
        k = cells = 0
        grid = {}
        for it in items:
            if it == 'cell':
                r, c = ((2, 1), (5, 0), (2, 4))[cells]
                body += g.number(r, c, 0, 1.5 + cells + 10 * n)
                grid[r, c] = (NUMBER, 1.5 + cells + 10 * n)
                cells += 1
            else:
                body += ITEMS[it](a, k)
                k += 1
        grid.update(a.extra)
        parts.append(('S%d' % n, body))
        want.append((grid, a))
    bk = gm.open_bytes(g.simple_doc(g.workbook(parts)), formatting_info=fmt,
                       on_demand=demand)
    for n in (reversed(range(len(want))) if demand else range(len(want))):
        grid, a = want[n]
        sh = bk.sheet_by_index(n)
        what = 'sheet %d of %r' % (n, sheets)
        gm.check_sheet(sh, grid, what, size=size(grid, a.merged if fmt
                                                 else ()))
        check_ann(sh, a, fmt, what)
        R.step()
    R.state((sheets, fmt, demand))
    return (sheets, fmt)


def seqs(R, depth, shard, nshards):
    i = 0
    for n in range(depth + 1):
        for items in itertools.product(ITEMS, repeat=n):
            i += 1
            if i % nshards != shard:
                continue
            full = items[:1] + ('cell',) + items[1:2] + ('cell',) + items[2:]
            for fmt in (False, True):
                R.do(seq_case, (full,), fmt)
            if n < 3:
                rev = tuple(reversed(items)) + ('cell',)
                R.do(seq_case, (full, rev, ('cell',)), True, bool(i % 3))
                R.do(seq_case, (full[:2], rev), False, bool(i % 2))


# -- notes --------------------------------------------------------------------

def notes_case(R, notes, interleave, fmt):
    """notes: list of (row, col, id, author, flags, text, cuts, wides, runs,
    runcut, pad)."""
    a = Ann()
    first, second = b'', b''
    for r, c, oid, author, flags, text, cuts, wides, runs, rc, pad in notes:
        t = drawing(4) + obj(oid) + txo(text, cuts, wides, runs, rc)
        n = note(r, c, oid, author, flags, pad)
        if interleave:
            first += t + n
        else:
            first += t
            second += n
        a.notes[r, c] = (text, [x for x in runs if x[0] != len(text)],
                         author, flags >> 1 & 1, flags >> 7 & 1,
                         flags >> 8 & 1)
    body = (g.dimensions(3, 3) + g.number(0, 0, 0, 2.5) + first + second +
            g.number(1, 0, 0, 3.5))
    bk = gm.open_bytes(g.simple_doc(g.workbook([('S', body)])),
                       formatting_info=fmt)
    what = 'notes %r' % (notes,)
    gm.check_sheet(bk.sheet_by_index(0), {(0, 0): (NUMBER, 2.5),
                                          (1, 0): (NUMBER, 3.5)}, what)
    check_ann(bk.sheet_by_index(0), a, fmt, what)
    R.step()
    R.state((notes, interleave, fmt))
    return notes


TEXTS = ['', 'a', 'abc', 'nÿe', 'añ€b', 'x\ny\n', '日本']
FLAGS = [0, 2, 0x80, 0x100, 0x182]


def pieces(text, maxcuts):
    """All ways to cut a text and to store the pieces narrow or wide."""
    if not text:
        return [((), ())]
    out = []
    for k in range(maxcuts + 1):
        for cuts in itertools.combinations(range(1, len(text)), k):
            e = [0] + list(cuts) + [len(text)]
            opts = [(1,) if any(ord(ch) > 255 for ch in text[i:j]) else (0, 1)
                    for i, j in zip(e, e[1:])]
            out += [(cuts, w) for w in itertools.product(*opts)]
    return out


def notes(R, maxcuts):
    i = 0
    for text in TEXTS:
        n = len(text)
        for cuts, wides in pieces(text, maxcuts):
            for runs, rc in (((), None), (((0, 1), (n, 0)), None),
                             (((0, 1), (1, 2), (n, 0)), 1),
                             (((0, 3), (n, 0), (n, 0)), 2)):
                if n < 2 and len(runs) > 2 or not n and runs:
                    continue
                i += 1
                x = (i % 3, 1 + i % 2, 1 + i % 300, ('me', '', 'Åsa', '吉')[
                    i % 4], FLAGS[i % 5], text, cuts, wides, runs, rc,
                    (b'\0', b'', b'\x41')[i % 3])
                R.do(notes_case, [x], bool(i % 2), bool(i % 3))
    simple = [(r, c, oid, 'a%d' % oid, f, 't%d' % oid, (), (0,), ((0, 1),
                                                                  (2, 0)),
               None, b'\0')
              for oid, (r, c, f) in enumerate(itertools.product(
                  (0, 255), (0, 3), (0, 2)), 1)]
    for p in itertools.permutations(simple, 2):
        if p[0][:2] != p[1][:2]:
            for inter in (False, True):
                R.do(notes_case, list(p), inter, True)


def orphan_case(R, which):
    """A note whose text object is missing is no note; ids of other objects
    are not mixed up."""
    a = Ann()
    t = 'right'
    a.notes[1, 1] = (t, [(0, 1)], 'me', 0, 0, 0)
    good = obj(7) + txo(t, (), (0,), [(0, 1), (5, 0)])
    other = {'box before': obj(8, 6) + txo('box', (), (0,), [(0, 1),
                                                             (3, 0)]),
             'line': obj(8, 1), 'old': g.rec(0x5D, b'\x07\0\x04\0' +
                                             b'\1' * 4),
             'textless old': g.rec(0x5D, b'\x07\0\x04\0' + b'\1' * 4) +
             txo('lost', (), (0,), [(0, 1), (4, 0)])}
    if which in other:
        body = other[which] + good + note(1, 1, 7, 'me')
    elif which == 'missing':
        body = good + note(1, 1, 7, 'me') + note(0, 0, 9, 'me')
    elif which == 'after':
        body = good + other['line'] + note(1, 1, 7, 'me')
    bk = gm.open_bytes(g.simple_doc(g.workbook([(
        'S', g.dimensions(1, 1) + body + g.number(0, 0, 0, 1.0))])))
    gm.check_sheet(bk.sheet_by_index(0), {(0, 0): (NUMBER, 1.0)}, which)
    check_ann(bk.sheet_by_index(0), a, False, 'note, ' + which)
    R.step()
    R.state(which)
    return which


def orphans(R):
    for w in ('box before', 'line', 'old', 'textless old', 'missing',
              'after'):
        R.do(orphan_case, w)


# -- hyperlinks ---------------------------------------------------------------

def link_case(R, links, fmt=False):
    a = Ann()
    body = g.dimensions(9, 9)
    for l in links:
        b, e = hlink(**l)
        body += b
        a.links.append(e)
    body += g.number(1, 1, 0, 4.5)
    bk = gm.open_bytes(g.simple_doc(g.workbook([('S', body)])),
                       formatting_info=fmt)
    what = 'hyperlinks %r' % (links,)
    gm.check_sheet(bk.sheet_by_index(0), {(1, 1): (NUMBER, 4.5)}, what)
    check_ann(bk.sheet_by_index(0), a, fmt, what)
    R.step()
    R.state(links)
    return links


MONS = [None, ('url', 'http://a.b/c?d=1'), ('url', 'mailto:é@日'),
        ('url', ''), ('file', 0, 'A~1.XLS', 'a long name.xls'),
        ('file', 2, 'B.TXT', None), ('file', 1, 'C.TXT', 'nämé.txt'),
        ('file', 0, 'D.TXT', None), ('unc', '\\\\srv\\share\\x.xls'),
        ('url', ' a b '), ('url', 'u' * 300), ('file', 3, ' E ', ' e e '),
        ('file', 9, 'F', None), ('file', 10, 'G', None),
        ('file', 12, 'H', 'h' * 300), ('file', 255, 'I', None),
        ('unc', ' x '), ('file', 0, 'J.TXT', '..\\up.txt')]


def links(R):
    texts = (None, 'text', '', 'Ωm')
    for mon in MONS:
        for desc in texts:
            for target in (None, '_blank'):
                for mark in (None, 'Sheet1!A1', 'x'):
                    for tip in (None, 'tip', 'ö'):
                        for extra in ((False, True) if mon and
                                      mon[0] == 'url' else (False,)):
                            R.do(link_case, [dict(
                                rect=(1, 1, 2, 2), desc=desc, target=target,
                                mon=mon, mark=mark, tip=tip, extra=extra)],
                                bool(extra))
    rects = [(r0, r1, c0, c1) for r0 in range(2) for r1 in range(r0, 3)
             for c0 in range(2) for c1 in range(c0, 3)]
    for p in itertools.product(rects, repeat=2):
        R.do(link_case, [dict(rect=p[0], desc='one', mon=MONS[1], tip='t1'),
                         dict(rect=p[1], desc='two', mark='m')])
    kinds = [dict(), dict(mark='m'), dict(desc='d'), dict(target='_top')] + [
        dict(mon=MONS[i]) for i in (1, 4, 5, 8)]
    for a, b in itertools.product(kinds, repeat=2):
        for p in (((0, 1, 0, 1), (0, 1, 0, 1)), ((0, 2, 0, 2), (1, 1, 1, 1)),
                  ((1, 1, 1, 1), (0, 2, 0, 2)), ((0, 1, 0, 1), (1, 2, 1, 2))):
            for tips in ((None, None), ('t', None), (None, 't'), ('t', 'u')):
                R.do(link_case, [dict(a, rect=p[0], tip=tips[0]),
                                 dict(b, rect=p[1], tip=tips[1])])
    for c in itertools.permutations(kinds, 3):
        R.do(link_case, [dict(k, rect=(0, 1, 0, 1 + i))
                         for i, k in enumerate(c)])
    for txt in (' ', ' a', 'a ', 'x' * 254, '\n', 'a\tb', '#'):
        for k in ('desc', 'target', 'mark', 'tip'):
            R.do(link_case, [dict([(k, txt), ('rect', (0, 0, 0, 0)),
                                   ('mon', MONS[1])])])


# -- conditional formats, charts ----------------------------------------------

def cond_case(R, blocks, sz1, sz2, fmt, verb):
    body = g.rec(0x1B0, struct.pack('<6H', 1, 1, 0, 2, 0, 2) +
                 ranges([(0, 1, 0, 1)])) + g.rec(
        0x1B1, struct.pack('<BBHHI', 1, 3, sz1, sz2, blocks << 26) +
        b'\0\0' + (b'\3' * 118 if blocks & 1 else b'') +
        (b'\4' * 8 if blocks & 4 else b'') +
        (b'\5' * 4 if blocks & 8 else b'') +
        (b'\x1e\7\0' * 9)[:sz1] + (b'\x1e\7\0' * 9)[:sz2])
    body = g.number(0, 0, 0, 2.5) + body + g.number(3, 1, 0, 3.5)
    bk = gm.open_bytes(g.workbook([('S', body)]), formatting_info=fmt,
                       verbosity=verb)
    what = 'conditional format with blocks %d, formulas of %d and %d' % (
        blocks, sz1, sz2)
    gm.check_sheet(bk.sheet_by_index(0), {(0, 0): (NUMBER, 2.5),
                                          (3, 1): (NUMBER, 3.5)}, what)
    R.step()
    R.state((blocks, sz1, sz2, fmt, verb))


def conds(R):
    for blocks in (0, 1, 4, 5, 8, 9, 12, 13):
        for sz1, sz2 in itertools.product((0, 3, 6, 27), repeat=2):
            for fmt in (False, True):
                for verb in (0, 1):
                    R.do(cond_case, blocks, sz1, sz2, fmt, verb)


CODES = (0x06, 0x12, 0x1A, 0x1B, 0x1C, 0x1D, 0x23E, 0x31, 0x3C, 0x41, 0x55,
         0x5D, 0x7D, 0x85, 0x8C, 0x99, 0xA0, 0xAB, 0xBD, 0xBE, 0xE5, 0xEC,
         0xFC, 0xFD, 0x15F, 0x1B0, 0x1B1, 0x1B6, 0x1B8, 0x200, 0x201, 0x203,
         0x204, 0x205, 0x207, 0x208, 0x225, 0x27E, 0x4BC, 0x800, 0x1001,
         0x1002, 0x1033, 0x1034)


def chart_case(R, codes, n, fmt):
    """An embedded chart in which any record may occur."""
    chart = g.rec(0x809, struct.pack('<HHHHII', 0x600, 0x20, 0, 1997, 0, 6))
    chart += b''.join(g.rec(c, b'\1\0' * (n // 2) + b'\1' * (n % 2))
                      for c in codes) + g.EOF
    body = g.number(0, 0, 0, 2.5) + obj(9, typ=5) + chart + g.number(
        3, 1, 0, 3.5)
    bk = gm.open_bytes(g.workbook([('S', body), ('T', body)]),
                       formatting_info=fmt)
    what = 'chart with records %r of %d bytes' % (codes, n)
    for i in range(2):
        gm.check_sheet(bk.sheet_by_index(i), {
            (0, 0): (NUMBER, 2.5), (3, 1): (NUMBER, 3.5)}, what)
        check_ann(bk.sheet_by_index(i), Ann(), fmt, what)
    R.step()
    R.state((codes, n, fmt))


def charts(R):
    for n in (0, 1, 2, 8, 14, 40, 8224):
        for fmt in (False, True):
            for c in CODES:
                R.do(chart_case, (c,), n, fmt)
            R.do(chart_case, CODES, n, fmt)


# -- hidden sheets ------------------------------------------------------------

def hidden_case(R, kind, vis, demand):
    names = ['S%d' % i for i in range(len(vis))]
    if kind == 'xls':
        content = g.workbook([(n, g.number(0, 0, 0, i + 0.5))
                              for i, n in enumerate(names)],
                             visib=dict(enumerate(vis)))
    else:
        content = xg.package([(n, xg.sheetxml([(' r="1"', [
            '<c r="A1"><v>%r</v></c>' % (i + 0.5)])]))
            for i, n in enumerate(names)], states=[
                (None, 'hidden', 'veryHidden', 'visible')[v] for v in vis])
    bk = gm.open_bytes(content, on_demand=demand)
    what = '%s with visibility %r' % (kind, vis)
    for i in reversed(range(len(vis))):
        sh = bk.sheet_by_name(names[i])
        same(sh.visibility, vis[i] % 3, what + ': sheet %d' % i)
        gm.check_sheet(sh, {(0, 0): (NUMBER, i + 0.5)}, what)
        R.step()
    R.state((kind, vis, demand))


def hiddens(R):
    for n in range(1, 5):
        for vis in itertools.product(range(3), repeat=n):
            for kind in ('xls', 'xlsx'):
                for demand in (False, True):
                    R.do(hidden_case, kind, vis, demand)
        R.do(hidden_case, 'xlsx', (3,) * n, False)


# -- column widths ------------------------------------------------------------

def width_case(R, v, std, defw, cols, gcw, fmt=True):
    """cols: list of (first, last, width) in order; gcw: set of columns."""
    body = b''
    if defw is not None:
        body += g.rec(0x55, struct.pack('<H', defw))
    for c0, c1, w in cols:
        body += g.rec(0x7D, struct.pack('<HHHHHH', c0, c1, w, 0, 0, 0))
    if std is not None:
        body += g.rec(0x99, struct.pack('<H', std))
    if gcw is not None:
        bits = sum(1 << c for c in gcw)
        body += g.rec(0xAB, b'\x20\0' + bits.to_bytes(32, 'little'))
    if v == '80':
        content = g.workbook([('S', g.dimensions(1, 1) + body +
                               g.number(0, 0, 0, 1.0))])
    else:
        w = bg.Writer(v)
        content = w.book([('S', body + w.number(0, 0, 0, 1.0))])
    if v in ('50', '70', '80'):
        content = g.simple_doc(content, 'Workbook' if v == '80' else 'Book')
    bk = gm.open_bytes(content, formatting_info=True)
    sh = bk.sheet_by_index(0)
    info = {}
    for c0, c1, w in cols:
        for c in range(c0, min(c1, 255) + 1):
            info[c] = w
    what = 'version %s, %r' % (v, (std, defw, cols, gcw))
    for c in range(256):
        own, dflt = info.get(c), defw * 256 if defw is not None else 8 * 256
        if v == '80':
            w = own if own is not None else std if std is not None else dflt
        elif v == '30':
            w = own if own is not None else dflt
        elif gcw is not None and c in gcw:
            w = std if std is not None else dflt
        else:
            w = own if own is not None else dflt
        same(sh.computed_column_width(c), w, '%s: width of column %d' %
             (what, c))
    gm.check_sheet(sh, {(0, 0): (NUMBER, 1.0)}, what)
    R.step()
    R.state((v, std, defw, cols, gcw))
    return (v, std, defw, cols, gcw)


GCWS = (None, (), (0,), (1, 2, 32, 255), (31, 63), (30, 31),
        tuple(range(256)), tuple(range(0, 256, 2)), tuple(range(1, 256, 2)),
        tuple(range(200, 256)), tuple(range(20, 40)))


def widths(R):
    infos = ((), ((0, 0, 1000),), ((1, 255, 1000),), ((0, 256, 500),),
             ((0, 2, 1000), (2, 3, 700)), ((32, 63, 0),))
    for v in ('80', '70', '50', '40', '4W', '30'):
        for std in (None, 1234, 0):
            for defw in (None, 10, 0):
                for cols in infos:
                    for gcw in GCWS:
                        if gcw is not None and v in ('30', '80') and gcw:
                            continue
                        R.do(width_case, v, std, defw, cols, gcw)


# -- magnification ------------------------------------------------------------

def zoom_case(R, preview, scl, cached_preview, cached_normal):
    a = Ann()
    body = g.dimensions(1, 1) + window2(a, 0x6B6 | preview << 11, 0, 0,
                                        cached_preview, cached_normal)
    if scl is not None:
        body += g.rec(0xA0, struct.pack('<HH', *scl))
    sh = gm.open_bytes(g.simple_doc(g.workbook([(
        'S', body + g.number(0, 0, 0, 1.0))]))).sheet_by_index(0)
    active = 100
    if scl is not None:
        active = scl[0] * 100 // scl[1] if scl[1] else 0
        if not 10 <= active <= 400:
            active = 100
    if preview:
        other = cached_normal if 10 <= cached_normal <= 400 else active
        want = (active, other)
    else:
        other = (60 if cached_preview == 0 else cached_preview
                 if 10 <= cached_preview <= 400 else active)
        want = (other, active)
    same((sh.cooked_page_break_preview_mag_factor,
          sh.cooked_normal_view_mag_factor), want, 'magnification %r' % (
              (preview, scl, cached_preview, cached_normal),))
    R.step()
    R.state((preview, scl, cached_preview, cached_normal))
    return want


def zooms(R):
    vals = (0, 5, 9, 10, 11, 60, 100, 399, 400, 401)
    for p in (0, 1):
        for scl in (None, (1, 1), (1, 10), (9, 100), (4, 1), (401, 100),
                    (3, 7), (0, 1), (1, 0)):
            for a, b in itertools.product(vals, repeat=2):
                R.do(zoom_case, p, scl, a, b)


# -- older versions -----------------------------------------------------------

def old_case(R, v, what, arg):
    w = bg.Writer(v, enc='cp1252')
    a = Ann()
    if what == 'note':
        r, c, text, cut = arg
        b = text.encode('cp1252')
        chunks = [b[i:i + cut] for i in range(0, len(b), cut)] or [b'']
        body = g.rec(0x1C, struct.pack('<HHH', r, c, len(b)) + chunks[0])
        for x in chunks[1:]:
            body += g.rec(0x1C, struct.pack('<HHH', 0xFFFF, 0, len(x)) + x)
        a.notes[r, c] = (text, [(0, 0)], '', 0, 0, 0)
    elif what == 'breaks':
        body = b''
        for code, bs, lst, last in ((0x1B, arg[0], a.hpb, 255),
                                    (0x1A, arg[1], a.vpb, 65535)):
            if bs is not None:
                body += g.rec(code, struct.pack('<H', len(bs)) + b''.join(
                    struct.pack('<H', x) for x in bs))
                lst += [(x, 0, last) for x in bs]
    elif what == 'window':
        opt, r0, c0 = arg
        if v in bg.B2:
            names = WIN[:5]
            for i, n in enumerate(names):
                a.plain[n] = opt >> i & 1
            a.plain['automatic_grid_line_colour'] = opt >> 5 & 1
            body = g.rec(0x3E, bytes(opt >> i & 1 for i in range(5)) +
                         struct.pack('<HHB4x', r0, c0, opt >> 5 & 1))
        else:
            for i, n in enumerate(WIN):
                a.plain[n] = opt >> i & 1
            body = g.rec(0x23E, struct.pack('<HHHI', opt, r0, c0, 0))
        a.plain.update(first_visible_rowx=r0, first_visible_colx=c0)
    elif what == 'colwidth':
        body = b''
        for c0, c1, wd in arg:
            body += g.rec(0x24, struct.pack('<BBH', c0, c1, wd))
            for c in range(c0, c1 + 1):
                a.cols[c] = (wd, -1, 0, 0, 0)
    elif what == 'object':
        body = g.rec(0x5D, b'\x15\0\x12\0' + b'\7' * arg) + \
            g.rec(0x1B6, b'\1' * arg)
    cells = w.number(0, 0, 0, 1.5) + body + w.label(1, 1, 0, 'é')
    content = w.book([('S', cells)], codepage=1252)
    if v in ('50', '70'):
        content = g.simple_doc(content, 'Book')
    for fmt in (False, True):
        sh = gm.open_bytes(content, formatting_info=fmt).sheet_by_index(0)
        txt = 'version %s, %s %r' % (v, what, arg)
        gm.check_sheet(sh, {(0, 0): (NUMBER, 1.5), (1, 1): (TEXT, 'é')}, txt)
        check_ann(sh, a, fmt, txt)
        R.step()
    R.state((v, what, arg))
    return (v, what, arg)


def old(R, v):
    for text in ('', 'a', 'né', 'x' * 10, 'y' * 4096 + 'z'):
        for cut in (1, 3, 9, 10, 2048):
            if len(text) // cut > 20:
                continue
            for r, c in ((0, 0), (3, 2), (300, 255)):
                R.do(old_case, v, 'note', (r, c, text, cut))
    if v in ('50', '70', '40', '4W', '30'):
        for hb in (None, (), (1,), (2, 300)):
            for vb in (None, (), (4,), (1, 255)):
                R.do(old_case, v, 'breaks', (hb, vb))
    for opt in [1 << i for i in range(12)] + [0, 0x3F, 0xFFF, 0x2A]:
        for r0, c0 in ((0, 0), (5, 7)):
            if v in bg.B2:
                opt &= 0x3F
            R.do(old_case, v, 'window', (opt, r0, c0))
    if v in bg.B2:
        for cols in (((0, 0, 100),), ((0, 3, 100), (2, 255, 7)),
                     ((5, 5, 0), (4, 6, 9))):
            R.do(old_case, v, 'colwidth', cols)
    for n in (4, 18, 40):
        R.do(old_case, v, 'object', n)


# -- xlsx ---------------------------------------------------------------------

def comments_xml(authors, items):
    """items: list of (ref, author index, list of texts, rich)"""
    out = []
    for ref, au, texts, rich in items:
        body = ''.join('<r><rPr><b/></rPr>%s</r>' % xg.t(s) if rich else
                       xg.t(s) for s in texts)
        out.append('<comment ref="%s" authorId="%d"><text>%s</text>'
                   '</comment>' % (ref, au, body))
    return ('<?xml version="1.0" encoding="UTF-8"?><comments xmlns="%s">'
            '<authors>%s</authors><commentList>%s</commentList></comments>' %
            (xg.NS, ''.join('<author>%s</author>' % xg.esc(a)
                            for a in authors), ''.join(out)))


def xlsx_case(R, sheets, target, merges):
    """sheets: per sheet a list of (row, col, author index, texts, rich) or
    None (no comments part)."""
    authors = ['me', 'Åsa & co', 'x']
    parts, xmls = [], []
    for n, notes_ in enumerate(sheets):
        xmls.append(('S%d' % n, xg.sheetxml(
            [(' r="2"', ['<c r="B2"><v>%d</v></c>' % (5 + n)])],
            merge=[m for m in merges[n]])))
        if notes_ is not None:
            fn = 'comments%d.xml' % (9 - n)
            t = {'rel': '../' + fn, 'abs': '/xl/' + fn,
                 'sub': '../comments/' + fn, 'relcase': '../C' + fn[1:],
                 'abscase': '/xl/C' + fn[1:], 'same': fn}[target]
            parts.append(('xl/worksheets/_rels/sheet%d.xml.rels' % (n + 1),
                          xg.rels([('rId1', 'vmlDrawing',
                                    '../drawings/vml%d.vml' % n),
                                   ('rId2', 'comments', t)])))
            parts.append(('xl/comments/' + fn if target == 'sub' else
                          'xl/C' + fn[1:] if target == 'relcase' else
                          'xl/worksheets/' + fn if target == 'same' else
                          'xl/' + fn, comments_xml(authors, [
                              (xg.addr(r, c), au, tx, rich)
                              for r, c, au, tx, rich in notes_])))
    for fmt in (False,):
        bk = gm.open_bytes(xg.package(xmls, parts=parts))
        for n, notes_ in enumerate(sheets):
            sh = bk.sheet_by_index(n)
            what = 'sheet %d of comments %r, %s' % (n, sheets, target)
            want = []
            for m in merges[n]:
                e = [parse(x) for x in (m.split(':') * 2)[:2]]
                want.append((e[0][0], e[1][0] + 1, e[0][1], e[1][1] + 1))
            grid = {(1, 1): (NUMBER, 5.0 + n)}
            gm.check_sheet(sh, grid, what, size=size(grid, want))
            same({k: (x.text, x.author, x.rowx, x.colx)
                  for k, x in sh.cell_note_map.items()},
                 {(r, c): (''.join(tx), authors[au], r, c)
                  for r, c, au, tx, rich in notes_ or ()}, what)
            same(sh.merged_cells, want, what + ': merged')
            R.step()
    R.state((sheets, target, merges))
    return (sheets, target, merges)


def parse(ref):
    i = 0
    while ref[i].isalpha():
        i += 1
    c = 0
    for ch in ref[:i]:
        c = c * 26 + ord(ch) - 64
    return int(ref[i:]) - 1, c - 1


def xlsx(R):
    texts = (('t',), ('a ', 'b'), ('é\n日',), (' lead',), ('',), ('a', 'b',
                                                                'c'))
    one = [(r, c, au, tx, rich) for r, c in ((0, 0), (1, 1), (99, 27))
           for au in (0, 1, 2) for tx in texts for rich in (False, True)
           if rich or len(tx) == 1]
    no = ((), ())
    for x in one:
        for target in ('rel', 'abs', 'sub', 'relcase', 'abscase', 'same'):
            R.do(xlsx_case, ([x], None), target, no)
    pool = [one[0], one[25], one[-1], one[40]]
    for a, b in itertools.permutations(pool, 2):
        if a[:2] != b[:2]:
            R.do(xlsx_case, ([a, b], [b]), 'rel', no)
        R.do(xlsx_case, ([a], [b]), 'rel', no)
        R.do(xlsx_case, ([], [b]), 'sub', no)
    ms = ('A1:B2', 'C3', 'B1:B9', 'AA10:AC12')
    for k in range(3):
        for m in itertools.permutations(ms, k):
            R.do(xlsx_case, ([one[0]], None), 'rel', (m, m[:1]))
            R.do(xlsx_case, (None, None), 'rel', (m[1:], m))


# -- many and extreme annotations ---------------------------------------------

def m_rows(a, n):
    """All combinations of the settings of a row, n rows in all."""
    out = []
    combos = itertools.product((0, 1), (0, 1, 255, 256, 300, 0x7fff),
                               range(8), (0, 1), (0, 1), (0, 1), (0, 1))
    for r, (d, h, lv, hid, mis, ab, be) in enumerate(
            itertools.islice(itertools.cycle(combos), n)):
        out.append(rowinfo(a, r, h, d, lv, hid, mis, ab, be))
    return out


def m_lastrows(a, n):
    return [rowinfo(a, 65535 - i * 7, 200 + i, i % 2, i % 8, i // 2 % 2, 0, 0,
                    i // 4 % 2) for i in range(n)][::-1]


def m_cols(a, n):
    w = (0, 1, 255, 256, 2340, 32767, 65535)
    return [colinfo(a, c, c, w[c % 7], c % 2, (c & 1) | (c >> 1 & 7) << 8 |
                    (c >> 4 & 1) << 12) for c in range(n)]


def m_colranges(a, n):
    out, c = [], 0
    for i in range(n):
        if c > 255:
            break
        out.append(colinfo(a, c, min(c + i, 256), 1000 + i, 0, (i % 8) << 8))
        c += i + 1
    return out


def m_merges(a, n):
    out = []
    rs = [(2 * i, 2 * i + i % 2, (i * 3) % 250, (i * 3) % 250 + 1)
          for i in range(n)]
    for i in range(0, n, 1026):
        a.merged += half(rs[i:i + 1026])
        out.append(g.rec(0xE5, ranges(rs[i:i + 1026])))
    return out


def m_hpb(a, n):
    bs = [(65535 - i if i % 2 else i + 1, i % 256, 255) for i in range(n)]
    a.hpb += bs
    return [g.rec(0x1B, struct.pack('<H', n) + b''.join(
        struct.pack('<HHH', *b) for b in bs))]


def m_vpb(a, n):
    bs = [(255 - i % 256, i, 65535 - i) for i in range(n)]
    a.vpb += bs
    return [g.rec(0x1A, struct.pack('<H', n) + b''.join(
        struct.pack('<HHH', *b) for b in bs))]


def m_labels(a, n):
    r = [(i, i + 3, 0, i % 256) for i in range(n)]
    c = [(65535 - i, 65535, 255, 255) for i in range(n)]
    a.rowlab += half(r)
    a.collab += half(c)
    return [g.rec(0x15F, ranges(r) + ranges(c))]


def m_notes(a, n):
    out = []
    for i in range(n):
        r, c = (i * 997 % 65536, i % 256) if i else (65535, 255)
        oid = (i + 1) * 211 % 65521
        text = 'note %d ' % i + 'x' * (i % 50)
        a.notes[r, c] = (text, [(0, i)], 'author %d' % i, 0, 0, 0)
        out.append(obj(oid) + txo(text, (), (0,), [(0, i), (len(text), 0)]))
        out.append(note(r, c, oid, 'author %d' % i))
    return out[0::2] + out[1::2][::-1]


def m_links(a, n):
    out = []
    for i in range(n):
        r, c = (i * 97 % 65535, i % 255) if i else (65534, 254)
        b, e = hlink((r, r + 1, c, c + 1), desc='d' * (i % 300),
                     mon=('url', 'http://x/%d' % i), mark='m' * (i % 30),
                     tip='t%d' % i if i % 2 else None, extra=True)
        a.links.append(e)
        out.append(b)
    return out


def m_longs(a, n):
    """Texts of n characters."""
    out = []
    text = ''.join(chr(33 + i % 90) for i in range(n))
    wide = ''.join(chr(0x3000 + i % 5000) for i in range(n))
    for i, (t, w) in enumerate(((text, 0), (wide, 1))):
        cuts = tuple(range(4000, n, 4000))
        a.notes[i, 7] = (t, [(0, 1), (n // 2, 2)], 'me', 0, 0, 0)
        out.append(obj(i + 1) + txo(t, cuts, (w,) * (len(cuts) + 1),
                                    [(0, 1), (n // 2, 2), (n, 0)]) +
                   note(i, 7, i + 1, 'me'))
        if n < 1500:
            b, e = hlink((i + 3, i + 3, 1, 1), desc=t, mon=('url', t))
            a.links.append(e)
            out.append(b)
    return out


MANY = {f.__name__[2:]: f for f in (
    m_rows, m_lastrows, m_cols, m_colranges, m_merges, m_hpb, m_vpb,
    m_labels, m_notes, m_links, m_longs)}
COUNTS = {'rows': (1, 1536, 4000), 'lastrows': (1, 16, 900),
          'cols': (1, 128, 256), 'colranges': (3, 16, 23),
          'merges': (1, 2, 255, 256, 257, 1026, 1027, 2500),
          'hpb': (0, 1, 255, 256, 1026), 'vpb': (0, 1, 255, 256, 1026),
          'labels': (0, 1, 255, 256, 500), 'notes': (1, 2, 255, 256, 257, 700),
          'links': (1, 2, 255, 256, 257, 700),
          'longs': (2, 127, 128, 255, 256, 257, 1000, 1400, 3999, 4000,
                    4001, 8000, 12001, 32767)}


def many_case(R, what, n, rev):
    a = Ann()
    recs = MANY[what](a, n)
    if rev:
        recs = recs[::-1]
        if what == 'notes':         # a note comes after its object
            recs = recs[n:] + recs[:n]
        if what in ('links', 'longs'):
            a.links.reverse()
        if what == 'merges':
            a = Ann()
            recs = MANY[what](a, n)
    grid = {(1, 1): (NUMBER, 4.5)}
    body = g.dimensions(9, 9) + b''.join(recs[:1]) + g.number(1, 1, 0, 4.5) \
        + b''.join(recs[1:])
    for fmt in (True, False):
        bk = gm.open_bytes(g.workbook([('S', body), (
            'T', g.number(0, 0, 0, 1.0))]), formatting_info=fmt)
        txt = '%d of %s' % (n, what)
        gm.check_sheet(bk.sheet_by_index(0), grid, txt, size=size(
            grid, a.merged if fmt else ()))
        check_ann(bk.sheet_by_index(0), a, fmt, txt)
        check_ann(bk.sheet_by_index(1), Ann(), fmt, txt + ', next sheet')
    R.step(n)
    R.state((what, n, rev))
    return what, n


def manies(R, what):
    for n in COUNTS[what]:
        for rev in (False, True):
            R.do(many_case, what, n, rev)


def plain_case(R, recs):
    """recs: list of (name, arguments) of settings records."""
    a = Ann()
    body = g.dimensions(9, 9)
    for name, args in recs:
        if name == 'window':
            body += window2(a, *args)
        elif name == 'pane':
            a.plain.update(zip((
                'vert_split_pos', 'horz_split_pos',
                'horz_split_first_visible', 'vert_split_first_visible',
                'split_active_pane'), args), has_pane_record=1)
            body += g.rec(0x41, struct.pack('<HHHHBx', *args))
        elif name == 'defrow':
            b, h = args
            a.plain.update(default_row_height=h,
                           default_row_height_mismatch=b & 1,
                           default_row_hidden=b >> 1 & 1,
                           default_additional_space_above=b >> 2 & 1,
                           default_additional_space_below=b >> 3 & 1)
            body += g.rec(0x225, struct.pack('<HH', b, h))
        elif name == 'defcol':
            a.plain['defcolwidth'] = args[0]
            body += g.rec(0x55, struct.pack('<H', args[0]))
        elif name == 'std':
            a.plain['standardwidth'] = args[0]
            body += g.rec(0x99, struct.pack('<H', args[0]))
    body += g.number(1, 1, 0, 4.5)
    for fmt in (False, True):
        bk = gm.open_bytes(g.workbook([('S', body)]), formatting_info=fmt)
        check_ann(bk.sheet_by_index(0), a, fmt, 'settings %r' % (recs,))
    R.step(len(recs))
    R.state(tuple(recs))
    return recs[0]


def plains(R):
    for v in ((0, 0, 0, 0, 0), (0, 0, 0, 0, 3), (0, 0, 4, 5, 3),
              (1, 0, 0, 0, 0), (0, 1, 0, 0, 0)):
        R.do(plain_case, [('pane', v)])
    W = (0, 1, 255, 256, 32767, 32768, 65535)
    for i in range(12):
        R.do(plain_case, [('window', (1 << i,))])
        R.do(plain_case, [('window', (0xFFF ^ 1 << i,))])
    for opt in range(0, 4096, 37):
        R.do(plain_case, [('window', (opt,))])
    for x in W:
        for y in (0, 1, 255):
            R.do(plain_case, [('window', (0x6B6, x, y))])
        R.do(plain_case, [('defcol', (x,))])
        R.do(plain_case, [('std', (x,))])
        for b in range(16):
            R.do(plain_case, [('defrow', (b, x))])
        for k in range(4):
            for act in range(4):
                v = [3, 5, 7, 2]
                v[k] = x
                R.do(plain_case, [('pane', tuple(v) + (act,))])


def xlsxmany_case(R, n):
    """Many comments and merged areas, far out."""
    authors = ['author %d' % i for i in range(max(1, n // 3))]
    notes_ = [(i * 1009 % 1048576 if i else 1048575,
               i * 37 % 16384 if i else 16383, i % len(authors),
               ['t%d' % i, ' more' * (i % 7)]) for i in range(n)]
    areas = [(2 * i, 2 * i + i % 2, i * 3 % 250, i * 3 % 250 + 1)
             for i in range(n)]
    xml = xg.sheetxml([(' r="2"', ['<c r="B2"><v>5</v></c>'])], merge=[
        '%s:%s' % (xg.addr(a, c), xg.addr(b, d)) for a, b, c, d in areas])
    parts = [('xl/worksheets/_rels/sheet1.xml.rels',
              xg.rels([('rId2', 'comments', '../comments1.xml')])),
             ('xl/comments1.xml', comments_xml(authors, [
                 (xg.addr(r, c), au, tx, True) for r, c, au, tx in notes_]))]
    bk = gm.open_bytes(xg.package([('S', xml)], parts=parts))
    sh = bk.sheet_by_index(0)
    what = 'xlsx with %d comments and merged areas' % n
    grid = {(1, 1): (NUMBER, 5.0)}
    gm.check_sheet(sh, grid, what, size=size(grid, half(areas)))
    same({k: (x.text, x.author, x.rowx, x.colx)
          for k, x in sh.cell_note_map.items()},
         {(r, c): (''.join(tx), authors[au], r, c)
          for r, c, au, tx in notes_}, what + ': notes')
    same(sh.merged_cells, half(areas), what + ': merged')
    R.step(n)
    R.state(('xlsxmany', n))
    return n


def xlsxmany(R):
    for n in (1, 2, 9, 10, 11, 100, 255, 256, 257, 1026, 1027, 2500):
        R.do(xlsxmany_case, n)


def bounds(tier):
    return ('all sequences of <=%d of %d kinds of records around the cells '
            'of 1-3 sheets; all cuts and widths of note texts; all hyperlink '
            'options and pairs of rectangles; products of widths and '
            'magnifications; 7 older versions; xlsx comments and merges; 11 '
            'kinds of annotation in numbers to 4000 and at the last row and '
            'column; all settings at every edge' % (
                3 if tier == 'quick' else 4, len(ITEMS)))


def tasks(tier):
    q = tier == 'quick'
    n = 16 if q else 64
    t = [('notes', (2 if q else 3,)), ('orphans', ()), ('links', ()),
         ('widths', ()), ('zooms', ()), ('xlsx', ())]
    t += [('old', (v,)) for v in bg.VERSIONS]
    t += [('manies', (w,)) for w in MANY] + [('plains', ()), ('xlsxmany', ()),
                                             ('conds', ()), ('charts', ()),
                                             ('hiddens', ())]
    t += [('seqs', (3 if q else 4, s, n)) for s in range(n)]
    return t
