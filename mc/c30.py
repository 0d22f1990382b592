"""C30: defined names never hinder reading and refer to their own cells."""
import io
import itertools
import math
import struct
from core import expect, same
import xlsgen as g
import xlsxgen as xg
import biffgen as bg
import gridmodel as gm
from gridmodel import NUMBER
from channelpack import xlrd

PROP = 'C30'
ASSUMPTIONS = ['formulas as token sequences Excel can write',
               'an empty value is accepted where the documentation leaves '
               'an evaluation open (functions, converted texts, mixed '
               'comparisons)']

oSTRG, oNUM, oBOOL, oERR, oREF, oREL = 1, 2, 3, 4, -1, -2
SHEETS = ('S0', 'Da ta', 'S2')
DIM = (4, 3)            # cells of every sheet
GRID = [{(r, c): (NUMBER, float(100 * s + 10 * r + c))
         for r in range(DIM[0]) for c in range(DIM[1])}
        for s in range(len(SHEETS))]

# -- formulas -----------------------------------------------------------------
# ('int', n) ('num', x) ('str', s) ('bool', b) ('err', code) ('miss',)
# ('ref', cls, xti, r, c, rrel, crel) ('area', cls, xti, r1, r2, c1, c2)
# ('name', key) ('bin', op, a, b) ('un', op, a) ('paren', a)
# ('sum', a) ('func', id, *args) ('funcv', id, *args) ('if', c, a[, b])
# ('choose', i, *args) ('isect'|'list'|'range', a, b) ('mem', a)
# ('referr', cls) ('array',) ('unkfunc', *args)

BIN = {'+': 3, '-': 4, '*': 5, '/': 6, '^': 7, '&': 8, '<': 9, '<=': 10,
       '=': 11, '>=': 12, '>': 13, '<>': 14}
UN = {'+': 0x12, '-': 0x13, '%': 0x14}
REFOP = {'isect': 0x0F, 'list': 0x10, 'range': 0x11}
CLS = {'R': 0x20, 'V': 0x40, 'A': 0x60}


class Enc(object):
    """Tokens of a formula for one file version."""

    def __init__(self, b8, xtis, index):
        self.b8, self.xtis, self.index = b8, xtis, index

    def addr(self, r, c, rr=0, cr=0):
        if self.b8:
            return struct.pack('<HH', r & 0xFFFF,
                               c & 0xFF | rr << 15 | cr << 14)
        return struct.pack('<HB', r & 0x3FFF | rr << 15 | cr << 14, c & 0xFF)

    def area(self, r1, r2, c1, c2):
        if self.b8:
            return struct.pack('<HHHH', r1, r2, c1, c2)
        return struct.pack('<HHBB', r1, r2, c1, c2)

    def sheet(self, xti):
        if self.b8:
            return struct.pack('<H', xti)
        kind, a, b = self.xtis[xti]
        return struct.pack('<h8xhh', 1 if kind == 'ext' else -1, a, b)

    def tok(self, f):
        k = f[0]
        if k == 'int':
            return struct.pack('<BH', 0x1E, f[1])
        if k == 'num':
            return struct.pack('<Bd', 0x1F, f[1])
        if k == 'str':
            if self.b8:
                return b'\x17' + g.ustr(f[1], 'B')
            b = f[1].encode('latin-1')
            return b'\x17' + bytes([len(b)]) + b
        if k == 'bool':
            return bytes([0x1D, f[1]])
        if k == 'err':
            return bytes([0x1C, f[1]])
        if k == 'miss':
            return b'\x16'
        if k == 'ref':
            return bytes([CLS[f[1]] | 0x1A]) + self.sheet(f[2]) + \
                self.addr(*f[3:])
        if k == 'area':
            return bytes([CLS[f[1]] | 0x1B]) + self.sheet(f[2]) + \
                self.area(*f[3:])
        if k == 'referr':
            return bytes([CLS[f[1]] | 0x1C]) + self.sheet(0) + \
                self.addr(0, 0)
        if k == 'name':
            return bytes([CLS[f[2] if len(f) > 2 else 'V'] | 3]) + \
                struct.pack('<H', self.index[f[1]] + 1) + \
                b'\0' * (2 if self.b8 else 12)
        if k == 'namex':
            return bytes([CLS['V'] | 0x19]) + (
                struct.pack('<HHH', f[1], self.index[f[2]] + 1, 0)
                if self.b8 else struct.pack('<h8xH12x', f[3],
                                            self.index[f[2]] + 1))
        if k == 'bin':
            return self.tok(f[2]) + self.tok(f[3]) + bytes([BIN[f[1]]])
        if k == 'un':
            return self.tok(f[2]) + bytes([UN[f[1]]])
        if k == 'paren':
            return self.tok(f[1]) + b'\x15'
        if k == 'space':
            return b'\x19\x40\0\1' + self.tok(f[1])
        if k == 'volatile':
            return b'\x19\x01\0\0' + self.tok(f[1])
        if k == 'sum':
            return self.tok(f[1]) + b'\x19\x10\0\0'
        if k == 'func':
            return b''.join(map(self.tok, f[2:])) + struct.pack(
                '<BH', 0x41, f[1])
        if k in ('funcv', 'unkfunc'):
            return b''.join(map(self.tok, f[2:])) + struct.pack(
                '<BBH', 0x42, len(f) - 2, f[1])
        if k == 'if':
            a = self.tok(f[2])
            out = self.tok(f[1]) + struct.pack('<BBH', 0x19, 2, len(a) + 4)
            if len(f) == 3:
                return out + a + struct.pack('<BBHBBH', 0x19, 8, 3, 0x42, 2,
                                             1)
            b = self.tok(f[3])
            return out + a + struct.pack('<BBH', 0x19, 8, len(b) + 7) + b + \
                struct.pack('<BBHBBH', 0x19, 8, 3, 0x42, 3, 1)
        if k == 'choose':
            args = [self.tok(a) for a in f[2:]]
            n = len(args)
            tab, pos = [], 2 * n + 2
            for a in args:
                tab.append(pos)
                pos += len(a) + 4
            tab.append(pos)
            out = self.tok(f[1]) + struct.pack('<BBH', 0x19, 4, n) + \
                struct.pack('<%dH' % (n + 1), *tab)
            for a in args:
                out += a + struct.pack('<BBH', 0x19, 8, 3)
            return out + struct.pack('<BBH', 0x42, n + 1, 100)
        if k in REFOP:
            return self.tok(f[1]) + self.tok(f[2]) + bytes([REFOP[k]])
        if k == 'mem':
            t = self.tok(f[1])
            return b'\x29' + struct.pack('<H', len(t)) + t
        if k == 'memarea':
            t = self.tok(f[1])
            return b'\x26' + struct.pack('<IH', 0, len(t)) + t
        if k == 'array':
            return b'\x60' + b'\0' * 7
        if k == 'cat':
            return b''.join(map(self.tok, f[1:]))
        if k == 'raw':
            return f[1]
        raise ValueError(f)


# -- values -------------------------------------------------------------------
# (kind, value, must): kinds num str bool err lit ref rel unk free; `must`
# means that the reader has to report it, otherwise it may report nothing.

UNK = ('unk', None, False)
ERR = ('err', None, False)
FREE = ('free', None, False)


def num(v):
    return float(v)


def fail(v):
    """Not a number a cell can have."""
    return isinstance(v, complex) or math.isinf(v) or math.isnan(v)


def text(kind, v):
    if kind == 'str':
        return v
    return '%g' % v


def plain(kind, v):
    """Numbers whose text is beyond doubt."""
    return kind != 'num' or float('%g' % v) == v and (
        v == 0 or 1e-4 < abs(v) < 1e5)


def value(f, names, xtis, seen=()):
    k = f[0]

    def val(x):
        return value(x, names, xtis, seen)
    if k in ('int', 'num'):
        return 'num', num(f[1]), True
    if k == 'str':
        return 'str', f[1], True
    if k == 'bool':
        return 'bool', f[1], True
    if k == 'err':
        return 'lit', f[1], True
    if k == 'miss':
        return 'miss', None, False
    if k in ('ref', 'area'):
        kind, a, b = xtis[f[2]]
        if k == 'ref':
            r, c = f[3:5]
            rr, cr = f[5:7] if len(f) > 5 else (0, 0)
            box = (r, r + 1, c, c + 1)
        else:
            box = (f[3], f[4] + 1, f[5], f[6] + 1)
            rr = cr = 0
        if kind != 'int':
            return ERR
        if f[1] != 'R':
            return UNK
        if rr or cr:
            return 'rel', [((a, b + 1) + box, (0, 0, rr, rr, cr, cr))], True
        return 'ref', [(a, b + 1) + box], True
    if k == 'referr':
        return ERR
    if k == 'name' or k == 'namex':
        n = f[1] if k == 'name' else f[2]
        if n in seen:
            return ERR
        if len(seen) > 9:
            kind, v, must = value(names[n], names, xtis, seen + (n,))
            return kind, v, False
        return value(names[n], names, xtis, seen + (n,))
    if k in ('paren', 'space', 'volatile', 'mem'):
        return val(f[1])
    if k == 'bin':
        (ka, a, ma), (kb, b, mb) = val(f[2]), val(f[3])
        if FREE in ((ka, a, ma), (kb, b, mb)):
            return FREE
        if ka in ('err', 'lit') or kb in ('err', 'lit'):
            return ERR
        if ka in ('ref', 'rel', 'unk') or kb in ('ref', 'rel', 'unk'):
            return UNK
        must = ma and mb
        op = f[1]
        if op == '&':
            if not (plain(ka, a) and plain(kb, b)):
                return FREE
            if 'bool' in (ka, kb):
                a, b = ({1: 'TRUE', 0: 'FALSE'}[x] if t == 'bool' else
                        text(t, x) for t, x in ((ka, a), (kb, b)))
                return 'str', a + b, False
            return 'str', text(ka, a) + text(kb, b), must
        if op in ('<', '<=', '=', '>=', '>', '<>'):
            order = ('num', 'str', 'bool')
            x, y = (order.index(ka), a), (order.index(kb), b)
            if ka != kb:
                x, y, must = x[:1], y[:1], False
            if ka == 'bool' or kb == 'bool':
                must = False
            return 'bool', int({'<': x < y, '<=': x <= y, '=': x == y,
                                '>=': x >= y, '>': x > y,
                                '<>': x != y}[op]), must
        try:
            if 'str' in (ka, kb) or 'bool' in (ka, kb):
                must = False
            a, b = num(a), num(b)
            if op == '^' and a == 0 and b == 0:
                return FREE
            v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                 '/': lambda: a / b, '^': lambda: a ** b}[op]()
        except (ValueError, ArithmeticError):
            return ERR
        return ERR if fail(v) else ('num', v, must)
    if k == 'un':
        ka, a, ma = val(f[2])
        if ka in ('err', 'lit'):
            return ERR
        if ka in ('ref', 'rel', 'unk'):
            return UNK
        if ka == 'free':
            return FREE
        if f[1] == '+':
            return FREE if ka == 'bool' else (ka, a, ma and ka == 'num')
        try:
            v = num(a)
        except ValueError:
            return ERR
        return 'num', {'-': -v, '%': v / 100}[f[1]], ma and ka == 'num'
    if k in ('sum', 'func', 'funcv', 'array'):
        return UNK
    if k in ('unkfunc', 'memarea', 'cat', 'raw'):
        return UNK
    if k == 'if':
        kc, c, mc = val(f[1])
        if kc == 'free':
            return FREE
        if kc in ('err', 'lit', 'str'):
            return ERR
        if kc in ('ref', 'rel', 'unk'):
            return UNK
        if len(f) == 3 and not c:
            return 'bool', 0, mc
        kr, v, mr = val(f[2] if c else f[3])
        if kr == 'miss':
            return 'num', 0.0, mc and c in (0, 1)
        return kr, v, mc and mr and c in (0, 1)
    if k == 'choose':
        kc, c, mc = val(f[1])
        if kc == 'free':
            return FREE
        if kc in ('unk', 'ref', 'rel'):
            return UNK
        if kc in ('err', 'lit'):
            return ERR
        try:
            c = int(num(c))
        except ValueError:
            return ERR
        if not 1 <= c <= len(f) - 2:
            return ERR
        kr, v, mr = val(f[c + 1])
        if kr == 'miss':
            return 'num', 0.0, mc and kc == 'num'
        return kr, v, mc and mr and kc == 'num'
    if k in REFOP:
        (ka, a, ma), (kb, b, mb) = val(f[1]), val(f[2])
        if 'free' in (ka, kb):
            return FREE
        if ka in ('err', 'lit') or kb in ('err', 'lit'):
            return FREE if k == 'list' else ERR
        if k == 'list':
            if ka == kb == 'ref':
                return 'ref', a + b, ma and mb and len(b) == 1
            if ka in ('ref', 'rel') and kb in ('ref', 'rel'):
                a = [(x, (0,) * 6) for x in a] if ka == 'ref' else a
                b = [(x, (0,) * 6) for x in b] if kb == 'ref' else b
                return 'rel', a + b, ma and mb and len(b) == 1
            return FREE if 'rel' in (ka, kb) else UNK
        if ka == kb == 'ref':
            if len(a) != 1 or len(b) != 1:
                return FREE if k == 'range' else UNK
            a, b = a[0], b[0]
            if k == 'range':
                if a[:2] != b[:2]:
                    return FREE
                return 'ref', [tuple(m(x, y) for m, x, y in zip(
                    (min, max) * 3, a, b))], ma and mb
            v = tuple(m(x, y) for m, x, y in zip((max, min) * 3, a, b))
            if any(v[i] >= v[i + 1] for i in (0, 2, 4)):
                return ERR
            return 'ref', [v], ma and mb
        return FREE if 'rel' in (ka, kb) else UNK
    raise ValueError(f)


# -- books --------------------------------------------------------------------

# sheet references: an entry per sheet, a range of sheets, a deleted sheet, a
# sheet of another file, any sheet
XTIS = [('int', 0, 0), ('int', 1, 1), ('int', 2, 2), ('int', 0, 1),
        ('del', -1, -1), ('ext', 0, 0)]


def namerec(b8, name, tokens, flags=0, scope=0, extra=b'', wide=None):
    if b8:
        s = name.encode('utf-16-le') if wide or any(
            ord(c) > 255 for c in name) else None
        body = b'\1' + s if s is not None else b'\0' + name.encode('latin-1')
        n = len(name)
    else:
        body = name.encode('latin-1')
        n = len(body)
    return g.rec(0x18, struct.pack(
        '<HBBHHH4B', flags, 0, n, len(tokens), 0 if b8 else scope,
        scope if b8 else 0, 0, 0, 0, 0) + body + tokens + extra)


def cells8(s):
    return g.dimensions(*DIM) + b''.join(
        g.number(r, c, 0, v) for (r, c), (_, v) in sorted(GRID[s].items()))


def book(b8, namerecs, others=(), names=SHEETS):
    """others: (position, name, type) of further sheets, for the version 8
    only; references count them."""
    if b8:
        real = list(range(len(SHEETS)))
        bound = [('w', i) for i in real]
        for at, n, ty in others:
            bound.insert(at, ('o', n))
        pos = {i: bound.index(('w', i)) for i in real}
        sup = g.rec(0x1AE, struct.pack('<H', len(bound)) + b'\1\4') + g.rec(
            0x1AE, struct.pack('<H', 1) + g.ustr('\x01x.xls') + g.ustr('E'))
        x = b''
        for kind, a, b in XTIS:
            x += {'int': lambda: struct.pack('<HHH', 0, pos[a], pos[b]),
                  'del': lambda: struct.pack('<HHH', 0, 0xFFFF, 0xFFFF),
                  'ext': lambda: struct.pack('<HHH', 1, 0, 0)}[kind]()
        x += struct.pack('<HHH', 0, 0xFFFE, 0xFFFE)
        ext = g.rec(0x17, struct.pack('<H', len(XTIS) + 1) + x)
        return g.workbook([(n, cells8(i)) for i, n in enumerate(names)],
                          extra=sup + ext + b''.join(namerecs),
                          others=others)
    w = bg.Writer(b8_version(b8), xfs=(0,))
    ext = b''.join(g.rec(0x17, bytes([len(n), 3]) + n.encode('latin-1'))
                   for n in names) + g.rec(0x17, b'\0\4')
    return w.book([(n, b''.join(
        w.number(r, c, 0, v) for (r, c), (_, v) in sorted(GRID[i].items())))
        for i, n in enumerate(names)], codepage=1252, dims=DIM,
        extra=ext + b''.join(namerecs))


def b8_version(b8):
    return '70'


def check_cells(bk, what, names=SHEETS):
    for i, n in enumerate(names):
        gm.check_sheet(bk.sheet_by_name(n), GRID[i], '%s: sheet %s' % (
            what, n))


def check_maps(bk, want, what):
    """want: list of (name, scope)"""
    same([(n.name, n.scope) for n in bk.name_obj_list], want,
         what + ': names')
    same([n.name_index for n in bk.name_obj_list], list(range(len(want))),
         what + ': positions')
    byname, both = {}, {}
    for i, (n, s) in enumerate(want):
        byname.setdefault(n.lower(), []).append((s, i))
        both[n.lower(), s] = i
    same({k: [x.name_index for x in v] for k, v in bk.name_map.items()},
         {k: [i for s, i in sorted(v)] for k, v in byname.items()},
         what + ': name_map')
    same({k: v.name_index for k, v in bk.name_and_scope_map.items()}, both,
         what + ': name_and_scope_map')


def refuses(fn, what):
    try:
        v = fn()
    except xlrd.XLRDError:
        return
    except Exception as e:
        expect(False, '%s: %r instead of XLRDError', what, e)
    expect(False, '%s: gave %r instead of XLRDError', what, v)


def check_name(bk, n, f, want, what):
    kind, v, must = want
    res = n.result
    if kind == 'free':
        return
    if kind in ('err', 'unk', 'miss'):
        if res is not None:
            if not (kind == 'err' and res.kind == oERR):
                if kind == 'err' and res.kind in (oREF, oREL) and res.value:
                    # a reference to cells that are not in this file
                    for x in res.value:
                        expect(x.shtxlo < 0, '%s: refers to %r', what, x)
                else:
                    expect(res.value is None, '%s: has the value %r, there '
                           'is none', what, res)
        refuses(n.cell, what + ': cell()')
        refuses(n.area2d, what + ': area2d()')
        return
    if not must and (res is None or res.value is None):
        pass
    else:
        expect(res is not None and res.value is not None,
               '%s: no value, should be %r', what, v)
        code = {'num': oNUM, 'str': oSTRG, 'bool': oBOOL, 'lit': oERR,
                'ref': oREF, 'rel': oREL}[kind]
        expect(res.kind == code, '%s: kind of %r, should be %s', what, res,
               kind)
        if kind == 'ref':
            same([x.coords for x in res.value], v, what + ': coordinates')
            same([tuple(x.relflags) for x in res.value],
                 [(0,) * 6] * len(v), what + ': relative')
        elif kind == 'rel':
            same([(x.coords, tuple(x.relflags)) for x in res.value], v,
                 what + ': relative reference')
        else:
            expect(isinstance(res.value, str) == (kind == 'str') and
                   res.value == v, '%s: value %r, should be %r', what,
                   res.value, v)
    if kind == 'ref' and must and len(v) == 1 and v[0][1] - v[0][0] == 1:
        s, _, r1, r2, c1, c2 = v[0]
        sh = bk.sheet_by_index(s)
        a = n.area2d(clipped=False)
        expect(a[0] is sh, '%s: sheet %r', what, a[0].name)
        same(a[1:], (r1, r2, c1, c2), what + ': area')
        a = n.area2d()
        expect(a[0] is sh, '%s: sheet %r', what, a[0].name)

        def clip(x, m):
            return max(0, min(x, m))
        same(a[1:], (clip(r1, DIM[0]), clip(r2, DIM[0]), clip(c1, DIM[1]),
                     clip(c2, DIM[1])), what + ': clipped area')
        if r2 - r1 == c2 - c1 == 1:
            if r1 < DIM[0] and c1 < DIM[1]:
                c = n.cell()
                same((c.ctype, c.value), GRID[s][r1, c1], what + ': cell')
        else:
            refuses(n.cell, what + ': cell()')
    elif must or kind != 'ref':
        refuses(n.cell, what + ': cell()')
        refuses(n.area2d, what + ': area2d()')


# names every book has, for others to refer to
BASE = [('kNum', ('int', 3)), ('kHalf', ('num', 0.5)), ('kStr', ('str', 'ab')),
        ('kTrue', ('bool', 1)), ('kCell', ('ref', 'R', 0, 1, 2)),
        ('kArea', ('area', 'R', 1, 0, 2, 0, 1)),
        ('kRel', ('ref', 'R', 0, 1, 1, 1, 0)),
        ('kMulti', ('mem', ('list', ('ref', 'R', 0, 0, 0),
                            ('ref', 'R', 0, 2, 2)))),
        ('kErr', ('err', 42)), ('kDel', ('referr', 'R')),
        ('kExt', ('ref', 'R', 5, 0, 0)),
        ('kDiv', ('bin', '/', ('int', 1), ('int', 0))),
        ('kFun', ('func', 19)),
        ('kUnk', ('unkfunc', 999, ('int', 1), ('int', 2))),
        ('kEmpty', ('cat',)),
        ('kSelf', ('bin', '+', ('name', 'kSelf'), ('int', 1)))]
KEYS = [k for k, _ in BASE]


def batch_case(R, b8, first, fmlas):
    """One book with all these formulas; the names they use come first or
    last."""
    names = dict(BASE)
    new = [('n%d' % i, f) for i, f in enumerate(fmlas)]
    allnames = BASE + new if first else new + BASE
    names.update(new)
    enc = Enc(b8, XTIS, {k: i for i, (k, _) in enumerate(allnames)})
    data = book(b8, [namerec(b8, k, enc.tok(f)) for k, f in allnames])
    what = '%d names, BIFF%d' % (len(allnames), 8 if b8 else 7)
    bk = gm.open_bytes(data)
    check_cells(bk, what)
    check_maps(bk, [(k, -1) for k, _ in allnames], what)
    for n, (k, f) in zip(bk.name_obj_list, allnames):
        check_name(bk, n, f, value(f, names, XTIS, (k,)), '%s, %s = %r' % (
            what, k, f))
        R.step()
        R.state((b8, first, f))
    return len(allnames)


def batch(R, b8, fmlas, size=120):
    fmlas = list(fmlas)
    for i in range(0, len(fmlas), size):
        for first in (True, False):
            R.do(batch_case, b8, first, fmlas[i:i + size])


REFS = [('ref', 'R', 0, 0, 0), ('ref', 'R', 0, 3, 2), ('ref', 'R', 2, 1, 1),
        ('ref', 'R', 0, 9, 9), ('area', 'R', 0, 0, 1, 0, 1),
        ('area', 'R', 0, 1, 2, 1, 2), ('area', 'R', 1, 0, 5, 1, 7),
        ('area', 'R', 0, 0, 300, 0, 255),
        ('area', 'R', 1, 1, 1, 0, 255), ('area', 'R', 2, 0, 16383, 1, 1),
        ('area', 'R', 3, 0, 1, 0, 1), ('ref', 'R', 3, 0, 0),
        ('ref', 'R', 4, 0, 0), ('area', 'R', 4, 0, 1, 0, 1),
        ('ref', 'R', 5, 0, 0), ('area', 'R', 5, 0, 1, 0, 1),
        ('referr', 'R')]
RNAMES = [('name', k, 'R') for k in KEYS]
CONSTS = [('int', 0), ('int', 1), ('int', 2), ('num', 0.5), ('num', 1e308),
          ('num', 2.5), ('int', 400), ('str', 'ab'), ('str', '5'),
          ('str', ''), ('str', 'é"'), ('bool', 0), ('bool', 1), ('err', 7),
          ('un', '-', ('int', 8)), ('bin', '/', ('int', 1), ('int', 3))]
VALS = CONSTS + [('ref', 'V', 0, 0, 0), ('func', 19),
                 ('sum', ('area', 'R', 0, 0, 1, 0, 1)),
                 ('referr', 'V')] + [('name', k) for k in KEYS]


def ops(R, b8, part, n):
    fs = [('bin', op, a, b) for op in BIN for a in VALS for b in VALS]
    batch(R, b8, fs[part::n])


def leaves(R, b8):
    fs = list(REFS) + CONSTS + RNAMES + [('array',), ('func', 19)]
    fs += [('namex', len(XTIS), k, -len(SHEETS) - 1) for k in KEYS]
    fs += [('ref', 'R', s, r, c, rr, cr) for s in (0, 1) for r in (
        0, 5, -1, -3) for c in (0, 2, -1, -2) for rr in (0, 1)
        for cr in (0, 1) if (rr or r >= 0) and (cr or c >= 0)]
    fs += [('un', op, v) for op in UN for v in VALS]
    fs += [('un', op, ('un', o2, v)) for op in UN for o2 in UN for v in VALS]
    fs += [w + (f,) for w in (('paren',), ('space',), ('volatile',), ('mem',),
                              ('sum',), ('memarea',))
           for f in REFS + RNAMES + VALS]
    fs += [('func', i, v) for i in (15, 20, 24) for v in VALS]
    fs += [('funcv', 4, v, w) for v in VALS for w in VALS[::5]]
    fs += [('unkfunc', 999, v) for v in VALS]
    fs += [('cat', v, w) for v in VALS[:4] for w in VALS[:4]]
    fs += [('raw', b) for b in (b'\x01\0\0\0\0', b'\x18\1\2', b'\x2c' + b'\0'
                                * 4, b'\x03', b'\x12', b'\x0f', b'\x15',
                                b'\x23\xff\xff\0\0', b'\0')]
    batch(R, b8, fs)


def refops(R, b8):
    args = REFS + RNAMES
    fs = [('mem', (op, a, b)) for op in REFOP for a in args for b in args]
    small = [REFS[0], REFS[1], REFS[4], REFS[5], REFS[6], ('name', 'kMulti',
                                                           'R')]
    fs += [(o1, (o2, a, b), c) for o1 in REFOP for o2 in REFOP
           for a in small for b in small for c in small]
    fs += [(o1, c, (o2, a, b)) for o1 in REFOP for o2 in REFOP
           for a in small for b in small for c in small]
    batch(R, b8, fs)


def choices(R, b8):
    alts = [('int', 2), ('str', 'x'), ('bool', 1), ('miss',), REFS[0],
            REFS[6], ('name', 'kMulti'), ('name', 'kDiv'), ('err', 15),
            ('func', 19)]
    conds = VALS + [('bin', op, ('int', 1), ('int', 2)) for op in BIN]
    fs = [('if', c, a, b) for c in conds for a in alts for b in alts[:4]]
    fs += [('if', c, b, a) for c in conds[:24] for a in alts[4:]
           for b in alts[:4]]
    fs += [('if', c, a) for c in conds for a in alts]
    idx = [('int', i) for i in range(5)] + [('num', 1.5), ('num', 2.5)] + VALS
    fs += [('choose', i, a, b) for i in idx for a in alts for b in alts]
    fs += [('choose', i, a, ('miss',), b) for i in idx for a in alts[:4]
           for b in alts[:4]]
    batch(R, b8, fs)


def deep(R, b8, part, n, full):
    nums = [('int', 2), ('int', 3), ('num', 0.5)]
    if full:
        nums += [('int', 0), ('str', '7'), ('bool', 1)]
    two = [('bin', op, a, b) for op in BIN for a in nums for b in nums]
    fs = []
    for op in BIN:
        for t in two:
            for c in nums:
                fs.append(('bin', op, t, c))
                fs.append(('bin', op, c, t))
    batch(R, b8, fs[part::n], 400)


def chain_case(R, b8, order, n, root, circular):
    """n names, each referring to the next one; the last one is `root`."""
    names = {'c%d' % i: ('name', 'c%d' % (i + 1), 'R') for i in range(n)}
    names['c%d' % n] = ('name', 'c%d' % circular, 'R') \
        if circular is not None else root
    seq = sorted(names, key=lambda k: int(k[1:]))
    if order == 'backward':
        seq.reverse()
    elif order == 'mixed':
        seq = seq[::2] + seq[1::2]
    enc = Enc(b8, XTIS, {k: i for i, k in enumerate(seq)})
    data = book(b8, [namerec(b8, k, enc.tok(names[k])) for k in seq])
    what = 'chain of %d, %s, ends with %r' % (n, order, names['c%d' % n])
    bk = gm.open_bytes(data)
    check_cells(bk, what)
    check_maps(bk, [(k, -1) for k in seq], what)
    want = ERR if circular is not None else value(root, names, XTIS)
    for o, k in zip(bk.name_obj_list, seq):
        depth = n - int(k[1:])
        check_name(bk, o, names[k], want[:2] + (want[2] and depth < 9,),
                   '%s, %s' % (what, k))
        R.step()
    R.state((b8, order, n, root, circular))


def chains(R, b8):
    for n in (1, 2, 3, 5, 9, 10, 11, 12, 13, 20):
        for order in ('forward', 'backward', 'mixed'):
            for root in (('ref', 'R', 1, 2, 1), ('int', 4)):
                R.do(chain_case, b8, order, n, root, None)
            for c in sorted({0, 1, n // 2, n}):
                R.do(chain_case, b8, order, n, None, c)


# -- scope, flags, spelling ---------------------------------------------------

BUILTIN = ['Consolidate_Area', 'Auto_Open', 'Auto_Close', 'Extract',
           'Database', 'Criteria', 'Print_Area', 'Print_Titles', 'Recorder',
           'Data_Form', 'Auto_Activate', 'Auto_Deactivate', 'Sheet_Title',
           '_FilterDatabase']
BITS = [('hidden', 0, 1), ('func', 1, 1), ('vbasic', 2, 1), ('macro', 3, 1),
        ('complex', 4, 1), ('builtin', 5, 1), ('funcgroup', 6, 63),
        ('binary', 12, 1)]


def scope_case(R, b8, others, items):
    """items: list of (name, sheet or None, flags, formula)"""
    bound = list(range(len(SHEETS)))
    for at, n, ty in others:
        bound.insert(at, None)
    recs, want = [], []
    enc = Enc(b8, XTIS, {})
    for name, sheet, flags, f in items:
        raw = name
        if flags & 0x20:
            raw = chr(BUILTIN.index(name))
        recs.append(namerec(b8, raw, enc.tok(f), flags, 0 if sheet is None
                            else (bound.index(sheet) if b8 else sheet) + 1))
        want.append((name, -1 if sheet is None else sheet))
    data = book(b8, recs, others)
    what = 'sheets %r, names %r' % (bound, items)
    for kw in ({}, {'on_demand': True}, {'formatting_info': True}):
        bk = gm.open_bytes(data, **kw)
        check_maps(bk, want, what)
        for o, (name, sheet, flags, f) in zip(bk.name_obj_list, items):
            same([(k, getattr(o, k)) for k, sh, m in BITS],
                 [(k, flags >> sh & m) for k, sh, m in BITS],
                 what + ': flags of ' + name)
            if flags & 0x1008:
                continue
            check_name(bk, o, f, value(f, {}, XTIS), what + ', ' + name)
        check_cells(bk, what)
        R.step()
    R.state((b8, others, items))


OTHERS = [(), ((0, 'Ch', 2),), ((1, 'Ch', 2),), ((3, 'Ch', 2),),
          ((1, 'Mac', 1),), ((0, 'Ch', 2), (2, 'VB', 6)),
          ((1, 'Ch', 2), (2, 'Ch2', 2), (5, 'M', 1))]


def scopes(R, b8):
    where = (None, 0, 1, 2)
    f = [('ref', 'R', i, i, i) for i in range(3)] + [
        ('area', 'R', 1, 0, 1, 0, 1)]
    for others in OTHERS if b8 else OTHERS[:1]:
        for a in where:
            for s in range(3):
                R.do(scope_case, b8, others, [('Alpha', a, 0, f[s])])
        for a, b in itertools.permutations(where, 2):
            for n2 in ('Alpha', 'ALPHA', 'beta'):
                R.do(scope_case, b8, others, [('Alpha', a, 0, f[0]),
                                              (n2, b, 0, f[2])])
        for p in itertools.permutations(where):
            R.do(scope_case, b8, others, [('X', s, 0, f[i])
                                          for i, s in enumerate(p)])
        for a in where:
            R.do(scope_case, b8, others, [('Print_Area', a, 0x20, f[3]),
                                          ('Print_Titles', a, 0x20, f[1])])
    for k, sh, m in BITS:
        for v in {1, m, m // 2 + 1}:
            n = 'Print_Area' if k == 'builtin' else 'Nm'
            R.do(scope_case, b8, (), [('Other', None, 0, f[0]),
                                      (n, None, v << sh, f[1])])
    for a, b in itertools.combinations(BITS, 2):
        n = 'Print_Area' if 'builtin' in (a[0], b[0]) else 'Nm'
        R.do(scope_case, b8, (), [(n, 0, 1 << a[1] | 1 << b[1], f[0])])
    for n in BUILTIN:
        R.do(scope_case, b8, (), [(n, 1, 0x20, f[2])])
    for n in ('a', 'N' * 255, 'é', '_x.1', 'Ünï') + (
            ('日本', 'aЖ', '日' * 100) if b8 else ()):
        R.do(scope_case, b8, (), [(n, None, 0, f[1]), (n, 2, 0, f[0])])


def macro_case(R, others, order):
    """A name for every sheet, of any type, and for every run of sheets:
    those of or referring to what is no worksheet have no cells."""
    bound = list(range(len(SHEETS)))
    for at, n, ty in others:
        bound.insert(at, None)
    xtis = [(i, j) for i in range(len(bound)) for j in range(i, len(bound))]
    if order:
        xtis.reverse()
    enc = Enc(True, None, {})
    recs, want, items = [], [], []
    for x, (i, j) in enumerate(xtis):
        f = ('ref', 'R', x, 1, 2) if order else ('area', 'R', x, 0, 2, 1, 1)
        items.append((i, j, f))
        recs.append(namerec(True, 'n%d' % x, enc.tok(f), 0, i + 1))
        want.append(('n%d' % x, -2 if bound[i] is None else bound[i]))
    sup = g.rec(0x1AE, struct.pack('<H', len(bound)) + b'\1\4')
    ext = g.rec(0x17, struct.pack('<H', len(xtis)) + b''.join(
        struct.pack('<HHH', 0, i, j) for i, j in xtis))
    data = g.workbook([(n, cells8(i)) for i, n in enumerate(SHEETS)],
                      extra=sup + ext + b''.join(recs), others=others)
    what = 'sheets %r' % (bound,)
    for kw in ({}, {'on_demand': True}, {'formatting_info': True}):
        bk = gm.open_bytes(data, **kw)
        check_maps(bk, want, what)
        for o, (i, j, f) in zip(bk.name_obj_list, items):
            a, b = bound[i], bound[j]
            if a is None or b is None:
                w = ('err', None, True)
            else:
                w = ('ref', [(a, b + 1) + ((1, 2, 2, 3) if order else
                                           (0, 3, 1, 2))], True)
            check_name(bk, o, f, w, '%s: name of sheets %d to %d' % (
                what, i, j))
        check_cells(bk, what)
        R.step()
    R.state((others, order))


def macros(R):
    kinds = (1, 2, 6)
    n = len(SHEETS)
    for order in (0, 1):
        R.do(macro_case, (), order)
        for at in range(n + 1):
            for ty in kinds:
                R.do(macro_case, ((at, 'O', ty),), order)
                for at2 in range(at, n + 2):
                    for ty2 in kinds:
                        R.do(macro_case, ((at, 'O', ty), (at2, 'P', ty2)),
                             order)


def extern_case(R, names, cut, follow):
    """The sheet names of another file, the record cut short of bytes that a
    continuation holds."""
    body = struct.pack('<H', len(names)) + g.ustr('\x01other.xls') + b''.join(
        g.ustr(n) for n in names)
    if cut is not None and not 4 < cut < len(body):
        return False
    sup = g.rec(0x1AE, struct.pack('<H', len(SHEETS)) + b'\1\4')
    ext = g.rec(0x1AE, body[:cut])
    if cut is not None:
        ext += g.rec(0x3C, body[cut:])
    x = struct.pack('<HHHH', 1, 1 if follow else 0, 1, 1)
    sups = ext + sup if follow else sup + ext
    rf = bytes([0x3A]) + struct.pack('<HHH', 0, 2, 1)
    data = g.workbook([(n, cells8(i)) for i, n in enumerate(SHEETS)],
                      extra=sups + g.rec(0x17, x) +
                      namerec(True, 'nm', rf))
    what = 'other file with sheets %r cut at %r' % (names, cut)
    bk = gm.open_bytes(data)
    check_cells(bk, what)
    check_maps(bk, [('nm', -1)], what)
    check_name(bk, bk.name_obj_list[0], None,
               ('ref', [(1, 2, 2, 3, 1, 2)], True), what)
    R.step()
    R.state((names, cut, follow))


def manyrefs_case(R, n, part, at):
    """A name that uses one of so many references to sheets that their
    record is continued."""
    sup = g.rec(0x1AE, struct.pack('<H', len(SHEETS)) + b'\1\4')
    body = struct.pack('<H', n) + b''.join(
        struct.pack('<HHH', 0, i % 3, i % 3) for i in range(n))
    ext = b''.join(g.rec(0x3C if i else 0x17, body[i:i + part])
                   for i in range(0, len(body), part))
    recs = b''.join(
        namerec(True, 'nm%d' % j, bytes([0x3A]) +
                struct.pack('<HHH', i, 2, 1)) for j, i in enumerate(at))
    data = g.workbook([(nm, cells8(i)) for i, nm in enumerate(SHEETS)],
                      extra=sup + ext + recs)
    what = '%d references to sheets in records of %d bytes' % (n, part)
    bk = gm.open_bytes(data)
    check_cells(bk, what)
    check_maps(bk, [('nm%d' % j, -1) for j in range(len(at))], what)
    for j, i in enumerate(at):
        check_name(bk, bk.name_obj_list[j], None,
                   ('ref', [(i % 3, i % 3 + 1, 2, 3, 1, 2)], True),
                   '%s, reference %d' % (what, i))
    R.step()
    R.state((n, part, at))


def manyrefs(R):
    for n in (1, 3, 1369, 1370, 1371, 1372, 2000, 2740, 2741, 3000, 5000,
              10923):
        for part in (8222, 8224):
            at = sorted({0, n - 1, n // 2, min(n - 1, 1369),
                         min(n - 1, 1370), min(n - 1, 2740)})
            R.do(manyrefs_case, n, part, tuple(at))
    for n in (2, 3, 9):
        for part in range(2, 2 + 6 * n):
            R.do(manyrefs_case, n, part, tuple(range(n)))


def sheetnames_case(R, b8, names):
    recs, fs = [], []
    enc = Enc(b8, XTIS, {})
    for i in range(3):
        f = ('ref', 'R', i, i, 2 - i)
        fs.append(f)
        recs.append(namerec(b8, 'nm%d' % i, enc.tok(f), 0, i + 1))
        recs.append(namerec(b8, 'gl%d' % i, enc.tok(f), 0, 0))
    data = book(b8, recs, (), names)
    what = 'sheets named %r' % (names,)
    for kw in ({}, {'on_demand': True}):
        bk = gm.open_bytes(data, **kw)
        check_maps(bk, [(k % i, s) for i in range(3)
                        for k, s in (('nm%d', i), ('gl%d', -1))], what)
        for i in range(6):
            check_name(bk, bk.name_obj_list[i], fs[i // 2],
                       value(fs[i // 2], {}, XTIS), what)
        check_cells(bk, what, names)
        R.step()
    R.state((b8, names))


def sheetnames(R, b8):
    odd = [' A', 'A ', ' A ', 'a', 'A', 'é', 'É', "O'Neil", 'S!x', '1', '1.0',
           'A1', 'N' * 31, 'a b', '$A', '%', 'A' * 30 + ' ', 'ß', 'x\xa0',
           '-', '#REF', '=1', '"q"'] + (['日本', 'Ж' * 31] if b8 else [])
    for n in odd:
        for at in range(3):
            names = ['S0', 'Da ta', 'S2']
            names[at] = n
            R.do(sheetnames_case, b8, tuple(names))
    for a, b in itertools.permutations(odd, 2):
        if a.lower() != b.lower():
            R.do(sheetnames_case, b8, (a, b, 'Z'))


def externs(R):
    for names in (('A',), ('Sheet1', 'Ürs'), ('a', 'b', 'cc')):
        for follow in (False, True):
            for cut in [None] + list(range(20, 60)):
                R.do(extern_case, names, cut, follow)


# -- xlsx ---------------------------------------------------------------------

def xlsx_case(R, others, items, style):
    """items: list of (name, sheet or None, attributes, formula text)"""
    bound = list(range(len(SHEETS)))
    for at, n in others:
        bound.insert(at, None)
    xml, want = '', []
    for name, sheet, attrs, f in items:
        a = ''.join(' %s="%s"' % x for x in attrs)
        if sheet is not None and sheet < 0:     # no worksheet
            loc = ' localSheetId="%d"' % [i for i, x in enumerate(bound)
                                          if x is None][-1 - sheet]
        else:
            loc = '' if sheet is None else (
                ' localSheetId="%d"' % bound.index(sheet))
        xml += '<definedName name="%s"%s%s>%s</definedName>' % (
            xg.esc(name), *((loc, a) if style else (a, loc)), xg.esc(f))
        want.append((name, -1 if sheet is None else sheet
                     if sheet >= 0 else -2))
    rows = [[(' r="%d"' % (r + 1), ['<c r="%s"><v>%r</v></c>' % (
        xg.addr(r, c), GRID[s][r, c][1]) for c in range(DIM[1])])
        for r in range(DIM[0])] for s in range(len(SHEETS))]
    data = xg.package([(n, xg.sheetxml(rows[i])) for i, n in
                       enumerate(SHEETS)],
                      others=[(at, n, 'chartsheet', '<chartsheet/>')
                              for at, n in others],
                      names='<definedNames>%s</definedNames>' % xml)
    what = 'xlsx, sheets %r, names %r' % (bound, items)
    for kw in ({}, {'on_demand': True}, {'ragged_rows': True}):
        bk = gm.open_bytes(data, **kw)
        check_maps(bk, want, what)
        for o, (name, sheet, attrs, f) in zip(bk.name_obj_list, items):
            same(o.formula_text, f, what + ': formula')
            at = dict(attrs)
            for k, x in (('hidden', 'hidden'), ('func', 'function'),
                         ('vbasic', 'vbProcedure'), ('macro', 'xlm')):
                same(getattr(o, k), int(at.get(x, '0') in ('1', 'true')),
                     what + ': ' + k)
            same(o.builtin, int(name.startswith('_xlnm.')),
                 what + ': builtin')
            expect(o.book is bk, '%s: book of the name', what)
        check_cells(bk, what)
        R.step()
    R.state((others, items, style))


def xlsx(R):
    where = (None, 0, 1, 2)
    fs = ('S0!$A$1', "'Da ta'!$A$1:$C$2", '1<2&"x"', 'SUM(S2!$A:$A)')
    for others in ((), ((0, 'Ch'),), ((1, 'Ch'),), ((3, 'Ch'),),
                   ((0, 'Ch'), (2, 'Ch2'))):
        for a in where:
            for f in fs:
                R.do(xlsx_case, others, [('Alpha', a, (), f)], 0)
        for a, b in itertools.permutations(where, 2):
            for n in ('Alpha', 'ALPHA', 'é', '_xlnm.Print_Area'):
                R.do(xlsx_case, others, [('Alpha', a, (), fs[0]),
                                         (n, b, (), fs[1])], 1)
        for p in itertools.permutations(where):
            R.do(xlsx_case, others, [('X', s, (), fs[i])
                                     for i, s in enumerate(p)], 0)
        for k in range(len(others)):
            for a in where:
                R.do(xlsx_case, others, [('X', -1 - k, (), fs[0]),
                                         ('X', a, (), fs[1])], k)
    for k in range(5):
        for c in itertools.combinations(('hidden', 'function', 'vbProcedure',
                                         'xlm'), k):
            for v in itertools.product(('1', '0', 'true', 'false'),
                                       repeat=min(k, 2)):
                at = tuple((n, v[i % len(v)]) for i, n in enumerate(c))
                R.do(xlsx_case, (), [('X', None, at, fs[0]),
                                     ('Y', 1, (('comment', 'c'),), fs[1])],
                     0)
    for n in ('a', '日本', '_xlnm._FilterDatabase', 'x&y', 'N' * 255):
        R.do(xlsx_case, (), [(n, 2, (), fs[2]), (n, None, (), fs[3])], 0)


def bounds(tier):
    return ('formulas: all operators over %d x %d operands, all unary and '
            'reference operators, choices, chains and cycles of up to 21 '
            'names, two levels of operators over %d operands; all scopes '
            'and flags of up to 4 names in 7 arrangements of sheets; names of '
            'every sheet and run of sheets in all arrangements of 3 with up '
            'to 2 chart, macro or module sheets; 25 odd '
            'sheet names and all pairs of them; up to 10923 references to '
            'sheets, continued at every byte for up to 9; BIFF8 '
            'and BIFF7; xlsx' % (len(VALS), len(VALS), 3 if tier == 'quick'
                                 else 6))


def tasks(tier):
    q = tier == 'quick'
    t = [('externs', ()), ('xlsx', ()), ('manyrefs', ()), ('macros', ())]
    for b8 in (True, False):
        t += [(n, (b8,)) for n in ('leaves', 'refops', 'choices', 'chains',
                                   'scopes', 'sheetnames')]
        t += [('ops', (b8, i, 4)) for i in range(4)]
        n = 2 if q else 8
        t += [('deep', (b8, i, n, not q)) for i in range(n)]
    return t
