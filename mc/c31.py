"""C31: the formatting of an xls workbook is reported as stored."""
import itertools
import struct
import biffgen as bg
import xlsgen as g
import gridmodel as gm
from core import expect, same

PROP = 'C31'
ASSUMPTIONS = ['opened with formatting_info=True',
               'a cell style refers to an existing parent and number format',
               'one palette per workbook, or per sheet of a BIFF4 workbook']

VERSIONS = bg.VERSIONS[1:] + ('80',)
AL, BO, BK, PR = 'alignment.', 'border.', 'background.', 'protection.'
USED = ['_%s_flag' % s for s in ('format', 'font', 'alignment', 'border',
                                 'background', 'protection')]


def used(at):
    return [(n, at, 2 + i, 1) for i, n in enumerate(USED)]


# name, byte, first bit, bits: from the published record layouts
TYPE = [(PR + 'cell_locked', 0, 1), (PR + 'formula_hidden', 1, 1),
        ('is_style', 2, 1)]
FILL34 = [(BK + 'fill_pattern', 6, 0, 6),
          (BK + 'pattern_colour_index', 6, 6, 5),
          (BK + 'background_colour_index', 6, 11, 5)]
BORDER34 = [(BO + 'top_line_style', 8, 0, 3),
            (BO + 'top_colour_index', 8, 3, 5),
            (BO + 'left_line_style', 8, 8, 3),
            (BO + 'left_colour_index', 8, 11, 5),
            (BO + 'bottom_line_style', 8, 16, 3),
            (BO + 'bottom_colour_index', 8, 19, 5),
            (BO + 'right_line_style', 8, 24, 3),
            (BO + 'right_colour_index', 8, 27, 5)]
LAYOUT = {
    '80': [('font_index', 0, 0, 16), ('format_key', 2, 0, 16)] +
          [(n, 4, b, w) for n, b, w in TYPE] +
          [('parent_style_index', 4, 4, 12),
           (AL + 'hor_align', 6, 0, 3), (AL + 'text_wrapped', 6, 3, 1),
           (AL + 'vert_align', 6, 4, 3), (AL + 'rotation', 7, 0, 8),
           (AL + 'indent_level', 8, 0, 4), (AL + 'shrink_to_fit', 8, 4, 1),
           (AL + 'text_direction', 8, 6, 2)] + used(9) +
          [(BO + 'left_line_style', 10, 0, 4),
           (BO + 'right_line_style', 10, 4, 4),
           (BO + 'top_line_style', 10, 8, 4),
           (BO + 'bottom_line_style', 10, 12, 4),
           (BO + 'left_colour_index', 10, 16, 7),
           (BO + 'right_colour_index', 10, 23, 7),
           (BO + 'diag_down', 10, 30, 1), (BO + 'diag_up', 10, 31, 1),
           (BO + 'top_colour_index', 14, 0, 7),
           (BO + 'bottom_colour_index', 14, 7, 7),
           (BO + 'diag_colour_index', 14, 14, 7),
           (BO + 'diag_line_style', 14, 21, 4),
           (BK + 'fill_pattern', 14, 26, 6),
           (BK + 'pattern_colour_index', 18, 0, 7),
           (BK + 'background_colour_index', 18, 7, 7)],
    '50': [('font_index', 0, 0, 16), ('format_key', 2, 0, 16)] +
          [(n, 4, b, w) for n, b, w in TYPE] +
          [('parent_style_index', 4, 4, 12),
           (AL + 'hor_align', 6, 0, 3), (AL + 'text_wrapped', 6, 3, 1),
           (AL + 'vert_align', 6, 4, 3), ('orientation', 7, 0, 2)] +
          used(7) +
          [(BK + 'pattern_colour_index', 8, 0, 7),
           (BK + 'background_colour_index', 8, 7, 7),
           (BK + 'fill_pattern', 8, 16, 6),
           (BO + 'bottom_line_style', 8, 22, 3),
           (BO + 'bottom_colour_index', 8, 25, 7),
           (BO + 'top_line_style', 12, 0, 3),
           (BO + 'left_line_style', 12, 3, 3),
           (BO + 'right_line_style', 12, 6, 3),
           (BO + 'top_colour_index', 12, 9, 7),
           (BO + 'left_colour_index', 12, 16, 7),
           (BO + 'right_colour_index', 12, 23, 7)],
    '40': [('font_index', 0, 0, 8), ('format_key', 1, 0, 8)] +
          [(n, 2, b, w) for n, b, w in TYPE] +
          [('parent_style_index', 2, 4, 12),
           (AL + 'hor_align', 4, 0, 3), (AL + 'text_wrapped', 4, 3, 1),
           (AL + 'vert_align', 4, 4, 2), ('orientation', 4, 6, 2)] +
          used(5) + FILL34 + BORDER34,
    '30': [('font_index', 0, 0, 8), ('format_key', 1, 0, 8)] +
          [(n, 2, b, w) for n, b, w in TYPE] + used(3) +
          [(AL + 'hor_align', 4, 0, 3), (AL + 'text_wrapped', 4, 3, 1),
           ('parent_style_index', 4, 4, 12)] + FILL34 + BORDER34,
    '21': [('font_index', 0, 0, 8), ('format_key', 2, 0, 6),
           (PR + 'cell_locked', 2, 6, 1), (PR + 'formula_hidden', 2, 7, 1),
           (AL + 'hor_align', 3, 0, 3), ('line.left', 3, 3, 1),
           ('line.right', 3, 4, 1), ('line.top', 3, 5, 1),
           ('line.bottom', 3, 6, 1), ('shaded', 3, 7, 1)],
}
LAYOUT['70'] = LAYOUT['50']
LAYOUT['4W'] = LAYOUT['40']
SIZE = {'80': 20, '70': 16, '50': 16, '40': 12, '4W': 12, '30': 12, '21': 4}
CODE = {'80': 0xE0, '70': 0xE0, '50': 0xE0, '40': 0x443, '4W': 0x443,
        '30': 0x243, '21': 0x43}
WHAT_ELSE = {
    '80': {}, '50': {}, '40': {},
    '30': {AL + 'vert_align': 2, AL + 'rotation': 0},
    '21': {AL + 'vert_align': 2, AL + 'rotation': 0}}
WHAT_ELSE['70'], WHAT_ELSE['4W'] = WHAT_ELSE['50'], WHAT_ELSE['40']
KEYS = [0, 1, 14, 49, 164, 165, 255, 256, 1023, 1024, 4095, 4096, 32767,
        32768, 65534, 65535]


def keys(version):
    if version in ('50', '70', '80'):
        return KEYS
    return list(range(64 if version == '21' else 256))


def pack_xf(version, values, junk=False):
    """The record; junk: set the bits that mean nothing."""
    n, taken = 0, 0
    for name, byte, bit, width in LAYOUT[version]:
        v = values.get(name, 0)
        assert 0 <= v < 1 << width, (name, v)
        n |= v << (8 * byte + bit)
        taken |= ((1 << width) - 1) << (8 * byte + bit)
    if junk:
        n |= ~taken & ((1 << 8 * SIZE[version]) - 1)
    return n.to_bytes(SIZE[version], 'little')


def expected(version, values):
    out = dict(WHAT_ELSE[version])
    for name, _, _, _ in LAYOUT[version]:
        v = values.get(name, 0)
        if name == 'orientation':
            # none, stacked, counterclockwise, clockwise
            out[AL + 'rotation'] = (0, 255, 90, 180)[v]
        elif name == 'shaded':
            out[BK + 'fill_pattern'] = 17 if v else 0
        elif name.startswith('line.'):
            out['border.%s_line_style' % name[5:]] = v
            out['border.%s_colour_index' % name[5:]] = 8 if v else 0
        else:
            out[name] = v
    return out


def get(xf, name):
    for part in name.split('.'):
        xf = getattr(xf, part)
    return xf


def fmtrecs(version):
    out = b''
    for k in keys(version):
        s = '0"k%d"' % k
        if version == '80':
            out += g.formatrec(k, s)
        elif version in ('50', '70'):
            out += bg.rec(0x41E, struct.pack('<HB', k, len(s)) + s.encode())
        elif version in ('40', '4W'):
            out += bg.rec(0x41E, struct.pack('<HB', 0, len(s)) + s.encode())
        else:
            out += bg.rec(0x1E, struct.pack('<B', len(s)) + s.encode())
    return out


class W(bg.Writer):
    """A writer with all records of the globals given."""

    def __init__(self, version, head):
        bg.Writer.__init__(self, version, 'cp1252')
        self.globals = head

    def formatrecs(self):
        return self.globals

    def xfrecs(self):
        return b''


def book(version, head, body, names=('S',)):
    if version == '80':
        return g.workbook([(n, body) for n in names], None, (), first=head)
    return W(version, head).book([(n, body) for n in names], 1252)


def plainxf(version, n=1):
    if version == '20':
        return b''
    return bg.rec(CODE[version], pack_xf(version, {})) * n


def opened(version, head, body=b'', names=('S',)):
    wb = gm.open_bytes(book(version, head, body, names),
                       formatting_info=True)
    return wb, wb.sheet_by_index(0)


def xf_case(R, version, items, fill=4096):
    """items: list of ((name, value), ...), junk"""
    recs = [bg.rec(CODE[version], pack_xf(version, dict(v), j))
            for v, j in items]
    n = len(recs)
    # enough styles for every parent to exist
    recs += [bg.rec(CODE[version], pack_xf(version, {}))] * max(0, fill - n)
    wb, _ = opened(version, fmtrecs(version) + b''.join(recs))
    same(len(wb.xf_list), len(recs), 'BIFF %s: number of styles' % version)
    for i, (v, j) in enumerate(items):
        xf = wb.xf_list[i]
        for name, val in expected(version, dict(v)).items():
            x = get(xf, name)
            expect(x == val, 'BIFF %s style %r: %s is %r, should be %r',
                   version, v, name, x, val)
        same(xf.xf_index, i, 'index of a style')
        R.step()
        R.state((version, v, j))
    return version, len(items)


def values(version, name, width, few=False):
    if name == 'format_key':
        ks = keys(version)
        return [ks[1], ks[-1]] if few else ks[1:]
    top = (1 << width) - 1
    if few:
        return sorted({1, top, top & 0x5555, top >> 1} - {0})
    if width <= 8:
        return range(1, top + 1)
    return sorted({x for k in range(width) for x in
                   ((1 << k) - 1, 1 << k, top ^ (1 << k))} | {top})


def xf_items(version, triples):
    lay = LAYOUT[version]
    ones = {n: (1 << w) - 1 for n, _, _, w in lay}
    ones['format_key'] = keys(version)[-1]
    for base in ({}, ones):
        yield tuple(sorted(base.items())), False
        yield tuple(sorted(base.items())), True
        for n, _, _, w in lay:
            for v in [0] + list(values(version, n, w)):
                yield tuple(sorted(dict(base, **{n: v}).items())), False
    for (a, _, _, wa), (b, _, _, wb_) in itertools.combinations(lay, 2):
        for x in values(version, a, wa, True):
            for y in values(version, b, wb_, True):
                yield ((a, x), (b, y)), (x + y) % 2 == 1
                yield tuple(sorted(dict(ones, **{
                    a: ones[a] - x if a != 'format_key' else 0,
                    b: ones[b] - y if b != 'format_key' else 0}).items())), \
                    False
    if triples:
        for three in itertools.combinations(lay, 3):
            yield tuple((n, (1 << w) - 1 if n != 'format_key' else
                         keys(version)[-1]) for n, _, _, w in three), False


def xfs(R, version, triples, shard, nshards):
    items = list(xf_items(version, triples))
    items = [x for i, x in enumerate(items) if i % nshards == shard]
    for i in range(0, len(items), 4000):
        R.do(xf_case, version, items[i:i + 4000])
    if version == '21' or shard:
        return
    # few styles, as in small workbooks: the styles have no parent
    for n in (1, 2, 3, 16, 21):
        for ns in range(n + 1):
            kinds = [((('is_style', 1), ('parent_style_index', 0xFFF)),
                      False)] * ns + [
                ((('parent_style_index', i % n),), False)
                for i in range(n - ns)]
            R.do(xf_case, version, kinds, 0)
            R.do(xf_case, version, kinds[::-1], 0)


# -- the attributes of BIFF2 cells

def attr_case(R, first, second, thirds):
    """Excel 2.0: the formatting is in the cells."""
    body, want = b'', []
    for i, t in enumerate(thirds):
        body += bg.rec(3, struct.pack('<HH3Bd', i // 8, i % 8, first, second,
                                      t, i + 0.5))
        want.append({
            PR + 'cell_locked': first >> 6 & 1,
            PR + 'formula_hidden': first >> 7, 'font_index': second >> 6,
            'format_key': second & 63, AL + 'hor_align': t & 7,
            BO + 'left_line_style': t >> 3 & 1,
            BO + 'left_colour_index': t & 8,
            BO + 'right_line_style': t >> 4 & 1,
            BO + 'right_colour_index': (t >> 4 & 1) * 8,
            BO + 'top_line_style': t >> 5 & 1,
            BO + 'top_colour_index': (t >> 5 & 1) * 8,
            BO + 'bottom_line_style': t >> 6 & 1,
            BO + 'bottom_colour_index': (t >> 6 & 1) * 8,
            BK + 'fill_pattern': 17 if t & 128 else 0})
    wb, sh = opened('20', b''.join(
        bg.rec(0x1E, bytes([len(s)]) + s) for s in
        (b'0"%d"' % i for i in range(64))), body)
    for i, w in enumerate(want):
        xf = wb.xf_list[sh.cell_xf_index(i // 8, i % 8)]
        for name, val in w.items():
            expect(get(xf, name) == val, 'BIFF 2 cell attributes %02x %02x '
                   '%02x: %s is %r, should be %r', first, second, thirds[i],
                   name, get(xf, name), val)
        same(sh.cell_value(i // 8, i % 8), i + 0.5, 'value')
        R.step()
    R.state((first, second, tuple(thirds[:2])))
    return first, second


def attrs(R, full):
    for first in (0, 0x40, 0x80, 0xC0):
        for second in (range(256) if full else
                       (0, 1, 2, 31, 32, 63, 64, 65, 128, 170, 192, 255)):
            R.do(attr_case, first, second, list(range(256)))
            R.do(attr_case, first, second, [255, 0, 7, 0, 255, 128, 7])


# -- fonts

FONT5 = [('height', 16), ('bold', 1), ('italic', 1), ('underlined', 1),
         ('struck_out', 1), ('outline', 1), ('shadow', 1),
         ('colour_index', 16), ('weight', 16), ('escapement', 16),
         ('underline_type', 8), ('family', 8), ('character_set', 8)]
FONT = {'80': FONT5, '70': FONT5, '50': FONT5, '40': FONT5[:8],
        '4W': FONT5[:8], '30': FONT5[:8],
        '21': FONT5[:5] + [FONT5[7]]}
FONT['20'] = FONT['21']
BITS = [n for n, w in FONT5 if w == 1]


def font_rec(version, v, name, junk):
    opts = sum(v.get(n, 0) << i for i, n in enumerate(BITS))
    if junk:
        opts |= 0xFFF0 if version in bg.B2 else 0xFFC0
    out = struct.pack('<HH', v.get('height', 0), opts)
    if version in bg.B2:
        b = name.encode('cp1252')
        raw = bg.rec(0x31, out + bytes([len(b)]) + b)
        if 'colour_index' in v:
            raw += bg.rec(0x45, struct.pack('<H', v['colour_index']))
        return raw
    out += struct.pack('<H', v.get('colour_index', 0))
    if version in ('30', '40', '4W'):
        b = name.encode('cp1252')
        return bg.rec(0x231, out + bytes([len(b)]) + b)
    out += struct.pack('<HHBBBB', v.get('weight', 0), v.get('escapement', 0),
                       v.get('underline_type', 0), v.get('family', 0),
                       v.get('character_set', 0), 255 if junk else 0)
    if version == '80':
        return bg.rec(0x31, out + g.ustr(name, 'B'))
    b = name.encode('cp1252')
    return bg.rec(0x31, out + bytes([len(b)]) + b)


def font_want(version, v, name):
    w = {n: v.get(n, 0) for n, _ in FONT[version]}
    w['name'] = name
    if version in bg.B2:
        w['colour_index'] = v.get('colour_index', 0x7FFF)
    if version not in ('50', '70', '80'):
        w['weight'] = 700 if v.get('bold') else 400
        w['escapement'] = w['family'] = 0
        w['underline_type'] = v.get('underlined', 0)
    return w


def font_case(R, version, items):
    """items: (values, name, junk)"""
    head = b''.join(font_rec(version, dict(v), n, j) for v, n, j in items)
    wb, _ = opened(version, head + fmtrecs(version if version != '20' else
                                           '21') + plainxf(version))
    n = len(items)
    same(len(wb.font_list), n + (n > 4), 'BIFF %s: number of fonts' % version)
    for i, (v, name, j) in enumerate(items):
        k = i + (i >= 4)        # there is no font number 4
        f = wb.font_list[k]
        same(f.font_index, k, 'number of a font')
        for attr, val in font_want(version, dict(v), name).items():
            x = getattr(f, attr)
            expect(x == val, 'BIFF %s font %d %r %r: %s is %r, should be %r',
                   version, k, v, name, attr, x, val)
        R.step()
        R.state((version, v, name, j))
    return version, n


def font_items(version):
    lay = FONT[version]
    ones = {n: (1 << w) - 1 for n, w in lay}
    nm = ['Arial', '', ' x', 'x ', ' ', 'Café', 'x' * 31, 'a b', 'Courier New']
    if version == '80':
        nm += ['字体', 'Ω', 'é' * 31, 'y' * 255]
    i = 0
    for n in nm:
        yield (), n, False
        yield tuple(ones.items()), n, True
    for n in range(0, 256, 3 if version != '80' else 1):
        yield (('height', n),), ('f%d ' % n) * 70 and ('q' * n), False
    for base in ({}, ones):
        for n, w in lay:
            for v in [0] + list(values(version, n, w)):
                i += 1
                yield (tuple(sorted(dict(base, **{n: v}).items())),
                       nm[i % len(nm)], False)
    for (a, wa), (b, wb_) in itertools.combinations(lay, 2):
        for x in values(version, a, wa, True):
            for y in values(version, b, wb_, True):
                i += 1
                yield ((a, x), (b, y)), nm[i % len(nm)], i % 3 == 0


def fonts(R, version):
    items = list(font_items(version))
    for n in range(1, 12):
        R.do(font_case, version, items[5:5 + n])
    for i in range(0, len(items), 2000):
        R.do(font_case, version, items[i:i + 2000])


# -- colours

INVARIANT = [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0),
             (0, 0, 255), (255, 255, 0), (255, 0, 255), (0, 255, 255)]
FIRST = INVARIANT + [
    (128, 0, 0), (0, 128, 0), (0, 0, 128), (128, 128, 0), (128, 0, 128),
    (0, 128, 128), (192, 192, 192), (128, 128, 128)]


def ncolours(version):
    return 56 if version in ('50', '70', '80') else 16


def pal_case(R, version, colours, tail, late, names):
    """A palette of the first so many colours; late: after the styles."""
    pal = b''
    if colours is not None:
        pal = bg.rec(0x92, struct.pack('<H', len(colours)) + b''.join(
            bytes(c) + b'\0' for c in colours) + b'\0' * tail)
    v = version if version != '20' else '21'
    parts = [pal, fmtrecs(v) + plainxf(version)]
    body = g.number(1, 2, 0, 4.5) if version == '80' else \
        W(version, b'').number(1, 2, 0, 4.5) if version != '20' else \
        bg.rec(3, struct.pack('<HH3Bd', 1, 2, 0x40, 0, 0, 4.5))
    content = book(version, b''.join(parts[::-1] if late else parts), body,
                   names)
    wb = gm.open_bytes(content, formatting_info=True)
    want = [tuple(c) for c in colours or ()]
    same([tuple(c) for c in wb.palette_record], want,
         'BIFF %s: the palette' % version)
    cm = wb.colour_map
    n = ncolours(version)
    for i in range(8):
        same(tuple(cm[i]), INVARIANT[i], 'fixed colour %d' % i)
    for i in range(n):
        if i < len(want):
            same(tuple(cm[8 + i]), want[i], 'colour %d' % (8 + i))
        elif i < 16:
            same(tuple(cm[8 + i]), FIRST[i], 'default colour %d' % (8 + i))
        else:
            expect(len(cm[8 + i]) == 3, 'colour %d', 8 + i)
    for i in (8 + n, 9 + n, 0x51, 0x7FFF):
        expect(i in cm and cm[i] is None, 'system colour %d is %r', i,
               cm.get(i))
    same(len(cm), 8 + n + 4, 'number of colours')
    for i in range(len(names)):
        sh = wb.sheet_by_index(i)
        same(sh.cell_value(1, 2), 4.5, 'value of a cell')
    plain = gm.open_bytes(content)
    same(plain.sheet_by_index(0).cell_value(1, 2), 4.5, 'value of a cell')
    R.step(n)
    R.state((version, tuple(want), tail, late, len(names)))
    return version, len(want)


def palettes(R, version):
    n = ncolours(version)
    many = version in ('4W', '50', '70', '80')
    R.do(pal_case, version, None, 0, False, ('S',))
    for k in range(1, n + 1):
        for seed in (0, 1):
            cs = [((i * 7 + seed) % 256, (255 - i * 3) % 256,
                   (i * i + 5 * seed) % 256) for i in range(k)]
            R.do(pal_case, version, cs, 0, k % 2 == 0, ('S',))
            if many:
                R.do(pal_case, version, cs, 0, k % 2 == 1, ('S', 'T', 'U'))
    for tail in range(5):
        R.do(pal_case, version, [(i, 2 * i, 3 * i) for i in range(n)], tail,
             False, ('S',))
    for ch in range(3):
        for v in range(256):
            c = [10, 20, 30]
            c[ch] = v
            R.do(pal_case, version, [c] * n, 0, v % 2 == 1, ('S',))


def near_case(R, version, rgb, colours):
    """The colour of grid lines, as a number of the palette."""
    pal = b''
    if colours:
        pal = bg.rec(0x92, struct.pack('<H', len(colours)) + b''.join(
            bytes(c) + b'\0' for c in colours))
    if version in bg.B2:
        view = bg.rec(0x3E, bytes([0, 1, 1, 0, 1]) + struct.pack(
            '<HHB', 2, 3, 0) + bytes(rgb) + b'\0')
    else:
        view = bg.rec(0x23E, struct.pack('<HHH', 0x96, 2, 3) + bytes(rgb) +
                      b'\0')
    v = version if version != '20' else '21'
    wb, sh = opened(version, pal + fmtrecs(v) + plainxf(version), view)
    same(tuple(sh.gridline_colour_rgb), tuple(rgb), 'colour of grid lines')
    known = {k: c for k, c in wb.colour_map.items() if c is not None}

    def dist(c):
        return sum((x - y) ** 2 for x, y in zip(c, rgb))
    best = min(dist(c) for c in known.values())
    i = sh.gridline_colour_index
    expect(i in known and dist(known[i]) == best, 'BIFF %s: colour %r of '
           'grid lines taken for number %r %r', version, rgb, i, known.get(i))
    same((sh.first_visible_rowx, sh.first_visible_colx), (2, 3),
         'first visible cell')
    R.step()
    R.state((version, tuple(rgb), bool(colours)))
    return version, i


def nears(R, version):
    lv = (0, 1, 50, 64, 127, 128, 200, 254, 255)
    for rgb in itertools.product(lv, repeat=3):
        R.do(near_case, version, rgb, None)
    for rgb in itertools.product((0, 100, 101, 255), repeat=3):
        R.do(near_case, version, rgb, [(100, 101, 0), (101, 100, 255),
                                       (250, 1, 99)])
    close = [(200, 100, 50), (200, 100, 51), (201, 100, 52), (202, 102, 50),
             (200, 99, 49), (205, 105, 55)]
    for rgb in itertools.product(range(199, 204), range(99, 104),
                                 range(49, 54)):
        for pal in (close, close[::-1], close[3:] + close[:3]):
            R.do(near_case, version, rgb, pal)


# -- named styles

BUILTIN = ['Normal', 'RowLevel_', 'ColLevel_', 'Comma', 'Currency', 'Percent',
           'Comma [0]', 'Currency [0]', 'Hyperlink', 'Followed Hyperlink']


def style_case(R, version, items):
    """items: ('b', id, level, style number) or ('u', name, style number)"""
    head, want = b'', {}
    for it in items:
        if it[0] == 'b':
            head += bg.rec(0x293, struct.pack('<HBB', 0x8000 | it[3], it[1],
                                              it[2]))
            name = BUILTIN[it[1]]
            if it[1] in (1, 2):
                name += '%d' % (it[2] + 1)
            want[name] = (1, it[3])
        else:
            s = g.ustr(it[1], 'H') if version == '80' else \
                bytes([len(it[1].encode('cp1252'))]) + it[1].encode('cp1252')
            head += bg.rec(0x293, struct.pack('<H', it[2]) + s)
            want[it[1]] = (0, it[2])
    wb, _ = opened(version, fmtrecs(version) + plainxf(version, 20) + head)
    same(wb.style_name_map, want, 'BIFF %s: named styles of %r' % (version,
                                                                   items))
    R.step(len(items))
    R.state((version, tuple(items)))
    return version, len(items)


def styles(R, version):
    xfx = [0, 1, 15, 16, 255, 256, 2047, 2048, 4095]
    one = [('b', i, lv, x) for i in range(10) for lv in (0, 1, 6, 255)
           for x in xfx if not (i in (1, 2) and lv > 6)]
    one += [('u', n, x) for n in ('My style', 'x', 'é', 'n' * 200, 'Normal2',
                                  '0', 'a b')
            for x in xfx]
    if version == '80':
        one += [('u', n, x) for n in ('Ω', '样式', '\u0101' * 255)
                for x in xfx]
    for it in one:
        R.do(style_case, version, [it])
    few = one[::7]
    for a, b in itertools.permutations(few, 2):
        R.do(style_case, version, [a, b])
    R.do(style_case, version, one)
    R.do(style_case, version, one[::-1])


# -- number formats

def format_case(R, version, items):
    """items: (number, text); before BIFF5 the number is the position."""
    head = b''
    for k, s in items:
        if version == '80':
            head += g.formatrec(k, s)
        else:
            b = s.encode('cp1252')
            pre = struct.pack('<H', k) if version in ('50', '70') else \
                b'\0\0' if version in ('40', '4W') else b''
            head += bg.rec(0x41E if pre else 0x1E, pre + bytes([len(b)]) + b)
    wb, _ = opened(version, head + plainxf(version))
    want = {}
    for i, (k, s) in enumerate(items):
        want[k if version in ('50', '70', '80') else i] = s
    for k, s in want.items():
        f = wb.format_map[k]
        same((f.format_key, f.format_str), (k, s), 'BIFF %s format' % version)
    same([f.format_str for f in wb.format_list][:len(items)],
         [s for _, s in items], 'BIFF %s: list of formats' % version)
    R.step(len(items))
    R.state((version, tuple(items[:3]), len(items)))
    return version, len(items)


def formats(R, version):
    texts = ['General', '0.00', 'yyyy-mm-dd', '"é" 0', '0' * 255, '',
             '0.00_);[Red]\\(0.00\\)', '#,##0\\ "€"']
    if version == '80':
        texts += ['0 "Ω"', '\u0101', '字' * 100]
    for t in texts:
        R.do(format_case, version, [(164, t)])
    for n in range(256):
        R.do(format_case, version, [(200, '0' * n), (201, '#')])
    for a, b, c in itertools.permutations(texts, 3):
        R.do(format_case, version, [(164, a), (170, b), (165, c)])
    if version in ('50', '70', '80'):
        for k in sorted({x for p in range(8, 16) for x in
                         (2 ** p - 1, 2 ** p, 2 ** p + 1)} | {65535}):
            R.do(format_case, version, [(k, '0.000'), (164, '0')])
    R.do(format_case, version, [(164 + i, '0"%d"' % i) for i in range(250)])
    R.do(format_case, version, [(500 - i, '0"%d"' % i) for i in range(250)])


STANDARD = {0: 'General', 1: '0', 2: '0.00', 3: '#,##0', 4: '#,##0.00',
            9: '0%', 10: '0.00%', 11: '0.00E+00', 12: '# ?/?', 13: '# ??/??',
            14: 'm/d/yy', 15: 'd-mmm-yy', 16: 'd-mmm', 17: 'mmm-yy',
            18: 'h:mm AM/PM', 19: 'h:mm:ss AM/PM', 20: 'h:mm', 21: 'h:mm:ss',
            22: 'm/d/yy h:mm', 45: 'mm:ss', 46: '[h]:mm:ss', 47: 'mm:ss.0',
            48: '##0.0E+0', 49: '@'}


def standard_case(R, version, given):
    """The formats every workbook has, unless it stores its own."""
    head = b''
    for k in given:
        s = STANDARD[k] + ' '
        head += g.formatrec(k, s) if version == '80' else bg.rec(
            0x41E, struct.pack('<HB', k, len(s)) + s.encode())
    wb, _ = opened(version, head + plainxf(version))
    for k, s in STANDARD.items():
        same(wb.format_map[k].format_str, s + ' ' * (k in given),
             'standard format %d' % k)
    R.step(len(STANDARD))
    R.state((version, tuple(given)))
    return version, len(given)


def standards(R, version):
    R.do(standard_case, version, [])
    for k in STANDARD:
        R.do(standard_case, version, [k])
    for a, b in itertools.combinations(STANDARD, 2):
        R.do(standard_case, version, [b, a])


# -- the way from a cell to its font

def link_case(R, version, nf, nx, mult):
    fs = [((('height', 20 * (i + 1)),), 'font %d' % i, False)
          for i in range(nf)]
    head = b''.join(font_rec(version, dict(v), n, j) for v, n, j in fs)
    head += fmtrecs(version)
    kk = keys(version)
    want, body = [], b''
    for i in range(nx):
        f = i * mult % nf
        k = kk[i * mult % len(kk)]
        head += bg.rec(CODE[version], pack_xf(version, {
            'font_index': f + (f >= 4), 'format_key': k}))
        want.append((f, k))
        body += g.number(i // 3, i % 3, i, 1.0) if version == '80' else \
            W(version, b'').number(i // 3, i % 3, i, 1.0)
    wb, sh = opened(version, head, body)
    for i, (f, k) in enumerate(want):
        x = wb.xf_list[sh.cell_xf_index(i // 3, i % 3)]
        font = wb.font_list[x.font_index]
        same((font.name, font.height), ('font %d' % f, 20 * (f + 1)),
             'BIFF %s: font of cell %d' % (version, i))
        same(wb.format_map[x.format_key].format_str, '0"k%d"' % k,
             'BIFF %s: format of cell %d' % (version, i))
    R.step(nx)
    R.state((version, nf, nx, mult))
    return version, nf, nx


def links(R, version):
    for nf in (1, 3, 4, 5, 6, 7, 12, 200):
        for nx in (1, 2, 15, 62) + (() if version == '21' else (300, 1000)):
            for mult in (1, 3, 7):
                R.do(link_case, version, nf, nx, mult)


def bounds(tier):
    return ('each field of a style and of a font over all its values (16-bit '
            'fields: all single bits, runs of bits and complements), with '
            'the other fields all 0 and all 1, all pairs of fields%s, with '
            'the unused bits 0 and 1; all cell attributes of BIFF2; all '
            'sizes of the palette; named styles; format strings of all '
            'lengths; BIFF2 to BIFF8' % (
                '' if tier == 'quick' else ', all triples of fields'))


def tasks(tier):
    q = tier == 'quick'
    t = []
    for v in VERSIONS:
        t += [('xfs', (v, not q, s, 4)) for s in range(4)]
        t += [('fonts', (v,)), ('formats', (v,)), ('links', (v,)),
              ('palettes', (v,))]
        if v not in ('21',):
            t += [('styles', (v,))]
        if v != '80':
            t += [('nears', (v,))]
        else:
            pass
        if v in ('50', '70', '80'):
            t += [('standards', (v,))]
    t += [('attrs', (not q,)), ('fonts', ('20',)), ('palettes', ('20',)),
          ('nears', ('20',))]
    return t
