"""Writer of xls streams of the file versions before BIFF8.

Written from the published record layouts; nothing in here uses the code
under check.  A version is one of '20' (Excel 2.0, no XF records), '21', '30',
'40', '4W' (a workbook of BIFF4 sheets), '50' and '70'.
"""
import struct
from xlsgen import rec, rk_bytes, EOF

VERSIONS = ('20', '21', '30', '40', '4W', '50', '70')
B2 = ('20', '21')


class Writer(object):
    """formats: format strings; xfs: format index of each cell style (for
    '20' the styles only exist as attributes of the cells)."""

    def __init__(self, version, enc='latin-1', formats=('General',),
                 xfs=(0,), ixfe=False):
        self.v, self.enc, self.formats = version, enc, tuple(formats)
        self.xfs, self.ixfe = tuple(xfs), ixfe
        self.b2 = version in B2
        self.last = None

    # -- strings
    def s1(self, s):
        b = s.encode(self.enc)
        return struct.pack('<B', len(b)) + b

    def s2(self, s):
        b = s.encode(self.enc)
        return struct.pack('<H', len(b)) + b

    # -- cells
    def head(self, r, c, xf):
        if self.v == '20':
            return struct.pack('<HH3B', r, c, 0x40, self.xfs[xf] | 0x40, 0x01)
        if self.v == '21':
            return struct.pack('<HH3B', r, c,
                               0x40 | (0x3F if self.ixfe else xf), 0x00, 0)
        return struct.pack('<HHH', r, c, xf)

    def pre(self, xf):
        """What precedes a cell."""
        if self.v == '21' and self.ixfe:
            # 'change': a style record applies until the next one
            last, self.last = self.last, xf
            if self.ixfe != 'change' or last != xf:
                return rec(0x44, struct.pack('<H', xf))
        return b''

    def number(self, r, c, xf, x):
        return self.pre(xf) + rec(3 if self.b2 else 0x203,
                                  self.head(r, c, xf) + struct.pack('<d', x))

    def integer(self, r, c, xf, i):
        assert self.b2
        return self.pre(xf) + rec(2, self.head(r, c, xf) +
                                  struct.pack('<H', i))

    def rk(self, r, c, xf, mode, p):
        assert not self.b2
        return rec(0x27E, self.head(r, c, xf) + rk_bytes(mode, p))

    def mulrk(self, r, c, items):
        assert self.v in ('50', '70')
        return rec(0xBD, struct.pack('<HH', r, c) + b''.join(
            struct.pack('<H', xf) + rk_bytes(m, p) for xf, m, p in items) +
            struct.pack('<H', c + len(items) - 1))

    def label(self, r, c, xf, s):
        if self.b2:
            return self.pre(xf) + rec(4, self.head(r, c, xf) + self.s1(s))
        return rec(0x204, self.head(r, c, xf) + self.s2(s))

    def rstring(self, r, c, xf, s, runs):
        assert self.v in ('50', '70')
        return rec(0xD6, self.head(r, c, xf) + self.s2(s) + struct.pack(
            '<B', len(runs)) + b''.join(struct.pack('<BB', *x) for x in runs))

    def blank(self, r, c, xf):
        return self.pre(xf) + rec(1 if self.b2 else 0x201,
                                  self.head(r, c, xf))

    def mulblank(self, r, c, xfs):
        return rec(0xBE, struct.pack('<HH', r, c) + b''.join(
            struct.pack('<H', x) for x in xfs) +
            struct.pack('<H', c + len(xfs) - 1))

    def boolerr(self, r, c, xf, v, iserr):
        return self.pre(xf) + rec(5 if self.b2 else 0x205,
                                  self.head(r, c, xf) +
                                  struct.pack('<BB', v, iserr))

    def formula(self, r, c, xf, result):
        code = {'20': 6, '21': 6, '30': 0x206, '40': 0x406, '4W': 0x406,
                '50': 6, '70': 6}[self.v]
        if self.b2:
            tail = struct.pack('<BB', 0, 3) + b'\x1e\x07\0'
        elif self.v in ('50', '70'):
            tail = struct.pack('<HIH', 0, 0, 3) + b'\x1e\x07\0'
        else:
            tail = struct.pack('<HH', 0, 3) + b'\x1e\x07\0'
        return self.pre(xf) + rec(code, self.head(r, c, xf) + result + tail)

    def string(self, s):
        if self.b2:
            return rec(7, self.s1(s))
        return rec(0x207, self.s2(s))

    def array(self, r, c):
        if self.b2:
            return rec(0x21, struct.pack('<HHBBBB', r, r, c, c, 0, 3) +
                       b'\x1e\x07\0')
        return rec(0x221, struct.pack('<HHBBH', r, r, c, c, 0) +
                   (b'\0\0\0\0' if self.v in ('50', '70') else b'') +
                   struct.pack('<H', 3) + b'\x1e\x07\0\0\0\0\0')

    def tableop(self, r, c):
        return rec(0x36 if self.b2 else 0x236,
                   struct.pack('<HHBBBBHHHH', r, r, c, c, 0, 0, 0, 0, 0, 0))

    def row(self, r, xf=None):
        if self.b2:
            if xf is None:
                return rec(8, struct.pack('<HHHHHBH', r, 0, 256, 255, 0, 0,
                                          0))
            return rec(8, struct.pack('<HHHHHBH', r, 0, 256, 255, 0, 1, 0) +
                       self.head(r, 0, xf)[4:])
        return rec(0x208, struct.pack('<HHHHHHI', r, 0, 256, 255, 0, 0,
                                      0x100 if xf is None else
                                      0x180 | xf << 16))

    def dimensions(self, nr, nc):
        if self.b2:
            return rec(0, struct.pack('<HHHH', 0, nr, 0, nc))
        return rec(0x200, struct.pack('<HHHHH', 0, nr, 0, nc, 0))

    # -- styles
    def formatrecs(self):
        out = b''
        for i, f in enumerate(self.formats):
            if self.v in ('20', '21', '30'):
                out += rec(0x1E, self.s1(f))
            elif self.v in ('40', '4W'):
                out += rec(0x41E, b'\0\0' + self.s1(f))
            else:
                out += rec(0x41E, struct.pack('<H', self.fmtkey(i)) +
                           self.s1(f))
        return out

    def fmtkey(self, i):
        """Number under which a format is known."""
        return 164 + i if self.v in ('50', '70') else i

    def xfrecs(self):
        out = b''
        for f in self.xfs:
            k = self.fmtkey(f)
            if self.v == '20':
                continue
            if self.v == '21':
                out += rec(0x43, struct.pack('<BBBB', 0, 0, k | 0x40, 1))
            elif self.v == '30':
                out += rec(0x243, struct.pack('<BBBBHHI', 0, k, 1, 0xF8, 0,
                                              0, 0))
            elif self.v in ('40', '4W'):
                out += rec(0x443, struct.pack('<BBHBBHI', 0, k, 1, 0x20, 0xF8,
                                              0, 0))
            else:
                out += rec(0xE0, struct.pack('<HHHBBIi', 0, k, 1, 0x20, 0xF8,
                                             0, 0))
        return out

    def bof(self, kind, odd=False):
        if odd:         # a newer record for an older version
            return rec(0x809, struct.pack(
                '<HHHH', {'20': 0x200, '21': 0x7, '30': 0x300,
                          '40': 0x400}[self.v], kind, 0, 0))
        if self.b2:
            return rec(9, struct.pack('<HH', 2, kind))
        if self.v == '30':
            return rec(0x209, struct.pack('<HHH', 3, kind, 0))
        if self.v in ('40', '4W'):
            return rec(0x409, struct.pack('<HHH', 4, kind, 0))
        return rec(0x809, struct.pack('<HHHH', 0x500, kind, 0x096C
                                      if self.v == '50' else 0x0D1B,
                                      1993 if self.v == '50' else 1996))

    def book(self, sheets, codepage=None, datemode=None, odd=False,
             dims=(3, 3), extra=b'', insheet=b'', first=b''):
        """sheets: list of (name, bytes of the cell records[, writer]); the
        versions before 4W hold one sheet without a name."""
        cp = first
        if codepage is not None:
            cp += rec(0x42, struct.pack('<H', codepage))
        if datemode is not None:
            cp += rec(0x22, struct.pack('<H', datemode))
        if self.v not in ('4W', '50', '70'):
            (_, body), = sheets
            return (self.bof(0x10, odd) + cp + extra + self.formatrecs() +
                    self.xfrecs() + self.dimensions(*dims) + body + EOF)
        if self.v == '4W':
            bounds = b''.join(rec(0x85, self.s1(s[0])) for s in sheets)
            parts = b''
            for s in sheets:
                w = s[2] if len(s) > 2 else self
                b = (w.bof(0x10) + extra + w.formatrecs() + w.xfrecs() +
                     w.dimensions(*dims) + s[1] + EOF)
                parts += rec(0x8F, struct.pack('<i', len(b)) +
                             self.s1(s[0])) + b
            head = self.bof(0x100) + cp + extra
            off = len(head) + 8 + len(bounds)
            return (head + rec(0x8E, struct.pack('<i', off)) + bounds +
                    parts + EOF)
        head = (self.bof(5) + cp + self.formatrecs() + self.xfrecs() +
                extra)
        bodies = [self.bof(0x10) + insheet + self.dimensions(*dims) + b + EOF
                  for _, b in sheets]
        blen = sum(4 + 6 + len(self.s1(n)) for n, _ in sheets)
        pos = len(head) + blen + len(EOF)
        bs = b''
        for (n, _), b in zip(sheets, bodies):
            bs += rec(0x85, struct.pack('<iBB', pos, 0, 0) + self.s1(n))
            pos += len(b)
        return head + bs + EOF + b''.join(bodies)
