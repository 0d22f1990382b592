"""Writer of BIFF8 workbook streams and of OLE2 compound documents.

Written from the published record and container layouts; nothing in here uses
the code under check.
"""
import itertools
import struct

ERRORS = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!',
          0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}

EMPTY, TEXT, NUMBER, DATE, BOOL, ERROR, BLANK = range(7)


def rec(code, data=b''):
    assert len(data) <= 8224
    return struct.pack('<HH', code, len(data)) + data


# -- strings ----------------------------------------------------------------

def u16(s):
    return s.encode('utf-16-le', 'surrogatepass')


def nunits(s):
    return len(u16(s)) // 2


def ustr(s, lenfmt='H', wide=None):
    """Unicode string with length and option byte."""
    if wide is None:
        wide = any(ord(c) > 255 for c in s)
    raw = u16(s) if wide else s.encode('latin-1')
    return struct.pack('<' + lenfmt + 'B', nunits(s), 1 if wide else 0) + raw


# -- cell records -----------------------------------------------------------

def number(r, c, xf, v):
    return rec(0x203, struct.pack('<HHHd', r, c, xf, v))


def rk_bytes(mode, payload):
    """mode: 'f' float, 'f100', 'i', 'i100'; payload: int or the top 30 bits
    of a float as an int."""
    if mode[0] == 'i':
        v = (payload << 2) & 0xFFFFFFFF | 2
    else:
        v = (payload << 2) & 0xFFFFFFFC
    if mode.endswith('100'):
        v |= 1
    return struct.pack('<I', v)


def rk_value(mode, payload):
    """What it stands for, from the definition."""
    if mode[0] == 'i':
        v = payload
        if mode.endswith('100'):
            return v / 100.0
        return float(v)
    v = struct.unpack('<d', struct.pack('<Q', payload << 34))[0]
    return v / 100.0 if mode.endswith('100') else v


def rk(r, c, xf, mode, payload):
    return rec(0x27E, struct.pack('<HHH', r, c, xf) + rk_bytes(mode, payload))


def mulrk(r, c, items):
    """items: list of (xf, mode, payload)"""
    return rec(0xBD, struct.pack('<HH', r, c) + b''.join(
        struct.pack('<H', xf) + rk_bytes(m, p) for xf, m, p in items) +
        struct.pack('<H', c + len(items) - 1))


def label(r, c, xf, s, wide=None):
    return rec(0x204, struct.pack('<HHH', r, c, xf) + ustr(s, 'H', wide))


def rstring(r, c, xf, s, runs, wide=None):
    return rec(0xD6, struct.pack('<HHH', r, c, xf) + ustr(s, 'H', wide) +
               struct.pack('<H', len(runs)) +
               b''.join(struct.pack('<HH', *x) for x in runs))


def labelsst(r, c, xf, i):
    return rec(0xFD, struct.pack('<HHHI', r, c, xf, i))


def blank(r, c, xf):
    return rec(0x201, struct.pack('<HHH', r, c, xf))


def mulblank(r, c, xfs):
    return rec(0xBE, struct.pack('<HH', r, c) +
               b''.join(struct.pack('<H', x) for x in xfs) +
               struct.pack('<H', c + len(xfs) - 1))


def boolerr(r, c, xf, v, iserr, extra=b''):
    return rec(0x205, struct.pack('<HHHBB', r, c, xf, v, iserr) + extra)


TOK = struct.pack('<HBH', 3, 0x1E, 7)           # formula: the integer 7


def formula(r, c, xf, result, flags=0):
    """result: 8 bytes"""
    return rec(6, struct.pack('<HHH', r, c, xf) + result +
               struct.pack('<HI', flags, 0) + TOK)


def fnum(v):
    return struct.pack('<d', v)


def fstr(junk=b'\0' * 5):
    return b'\0' + junk + b'\xff\xff'


def fbool(v, junk=b'\0' * 4):
    return b'\x01' + junk[:1] + bytes([v]) + junk[1:] + b'\xff\xff'


def ferr(v, junk=b'\0' * 4):
    return b'\x02' + junk[:1] + bytes([v]) + junk[1:] + b'\xff\xff'


def fempty(junk=b'\0' * 5):
    return b'\x03' + junk + b'\xff\xff'


def string(s, wide=None):
    return rec(0x207, ustr(s, 'H', wide))


def shrfmla(r, c):
    return rec(0x4BC, struct.pack('<HHBBBB', r, r, c, c, 0, 1) + TOK)


def array(r, c):
    return rec(0x221, struct.pack('<HHBBHI', r, r, c, c, 0, 0) + TOK)


def tableop(r, c):
    return rec(0x236, struct.pack('<HHBBHHHHH', r, r, c, c, 0, 0, 0, 0, 0))


def dimensions(nr, nc, r0=0, c0=0):
    return rec(0x200, struct.pack('<IIHHH', r0, nr, c0, nc, 0))


def row(r, c0=0, c1=256):
    return rec(0x208, struct.pack('<HHHHHHI', r, c0, c1, 255, 0, 0, 0x100))


def pad(n, fill=b'\0'):
    """A record of printer settings, exactly n bytes long in all (n >= 4)."""
    out = b''
    while n:
        k = min(n, 8000)
        if 0 < n - k < 4:
            k -= 4
        out += rec(0x4D, fill * (k - 4))
        n -= k
    return out


EOF = rec(0x0A)


def bof(kind):
    return rec(0x809, struct.pack('<HHHHII', 0x600, kind, 0x0DBB, 1997, 0, 6))


def xfrec(fmtkey, style=False):
    return rec(0xE0, struct.pack('<HHHBBBBIiH', 0, fmtkey,
                                 0xFFF5 if style else 1, 0x20, 0, 0,
                                 0xF4 if style else 0, 0, 0, 0x20C0))


def formatrec(key, s, wide=None):
    return rec(0x41E, struct.pack('<H', key) + ustr(s, 'H', wide))


def sstrec(strings, total=None):
    return rec(0xFC, struct.pack('<II', total or len(strings), len(strings)) +
               b''.join(ustr(s) for s in strings))


def workbook(sheets, sst=None, xfs=(0,), formats=(), datemode=None,
             extra=b'', globalpad=0, order=None, boundsfirst=False,
             others=(), visib=None, first=b''):
    """Stream of a workbook.

    sheets: list of (name, bytes of the records between BOF and EOF)
    sst: raw bytes of the SST and CONTINUE records, or a list of strings
    order: order in which the sheet substreams are placed in the stream
    others: list of (position in the list of bound sheets, name, type) of
            sheets that are not worksheets
    """
    if isinstance(sst, (list, tuple)):
        sst = sstrec(sst)
    head = bof(5) + first
    if datemode is not None:
        head += rec(0x22, struct.pack('<H', datemode))
    head += b''.join(formatrec(*f) for f in formats)
    head += b''.join(xfrec(k) for k in xfs)
    if globalpad:
        head += pad(globalpad)
    bodies = [bof(0x10) + b + EOF for _, b in sheets]
    bound = [(n, 0, bodies[i], (visib or {}).get(i, 0))
             for i, (n, _) in enumerate(sheets)]
    for at, n, typ in others:
        bound.insert(at, (n, typ, bof({1: 0x40, 2: 0x20, 6: 6}[typ]) +
                          pad(20) + EOF, 0))
    tail = (sst or b'') + extra + EOF
    blen = sum(len(rec(0x85, struct.pack('<IBB', 0, 0, 0) + ustr(n, 'B')))
               for n, _, _, _ in bound)
    pos = len(head) + blen + len(tail)
    order = list(order) if order is not None else list(range(len(bound)))
    where = {}
    out = b''
    for i in order:
        where[i] = pos + len(out)
        out += bound[i][2]
    bs = b''.join(rec(0x85, struct.pack('<IBB', where[i], v, t) +
                      ustr(n, 'B')) for i, (n, t, _, v) in enumerate(bound))
    assert len(bs) == blen
    return head + bs + tail + out


# -- compound documents -----------------------------------------------------

FREE, EOC, SATID, MSATID = -1, -2, -3, -4
SIG = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1'


def direntry(name, etype, left, right, child, first, size):
    raw = u16(name) + (b'\0\0' if name else b'')
    return (raw.ljust(64, b'\0') +
            struct.pack('<HBBiii', len(raw), etype, 1, left, right, child) +
            b'\0' * 36 + struct.pack('<ii', first, size) + b'\0' * 4)


class Doc(object):
    """A compound document under construction.

    Logical sectors are listed by kind; ``place`` maps them to physical
    sector numbers.
    """

    def __init__(self, streams, ssz=9, sssz=6, cutoff=4096, gaps=0,
                 msatx=0, dirpad=0, storages=()):
        """streams: list of (name, bytes, parent storage name or None)"""
        self.ssz, self.sssz, self.cutoff = ssz, sssz, cutoff
        self.size = 1 << ssz
        self.ssize = 1 << sssz
        self.streams = list(streams)
        self.gaps, self.msatx = gaps, msatx
        self.dirpad, self.storages = dirpad, storages
        self.short = [len(d) < cutoff for _, d, _ in self.streams]

    def shortchain(self):
        """(number of short sectors per short stream)"""
        return [-(-len(d) // self.ssize) if s else 0
                for (n, d, _), s in zip(self.streams, self.short)]

    def build(self, place=None, splace=None, tree='right', dirorder=None,
              satsize=None, sgaps=0):
        """place: function(list of logical sectors) -> list of the same
        sectors in physical order; splace: order of the short sectors, as a
        permutation of range(number of short sectors + sgaps)."""
        S = self.size
        # directory entries
        ents = [('S', i) for i in range(len(self.streams))]
        ents += [('D', n) for n in self.storages]
        ents += [('P', i) for i in range(self.dirpad)]
        if dirorder is not None:
            ents = [ents[i] for i in dirorder]
        ndir = -(-(1 + len(ents)) * 128 // S)
        # short stream container
        nshort = sum(self.shortchain())
        total = nshort + sgaps
        sp = list(splace) if splace is not None else list(range(total))
        assert sorted(sp) == list(range(total))
        ssat = [FREE] * total
        sscs = [b'\xee' * self.ssize] * total
        sfirst = {}
        k = 0
        for i, ((n, d, _), s) in enumerate(zip(self.streams, self.short)):
            if not s:
                continue
            m = self.shortchain()[i]
            ids = sp[k:k + m]
            k += m
            sfirst[i] = ids[0] if ids else EOC
            for j, x in enumerate(ids):
                ssat[x] = ids[j + 1] if j + 1 < m else EOC
                sscs[x] = d[j * self.ssize:(j + 1) * self.ssize].ljust(
                    self.ssize, b'\0')
        sscs = b''.join(sscs)
        nsscs = -(-len(sscs) // S)
        nssat = -(-len(ssat) * 4 // S) if ssat else 0
        logical = [('dir', i) for i in range(ndir)]
        logical += [('ssat', i) for i in range(nssat)]
        logical += [('sscs', i) for i in range(nsscs)]
        for i, (n, d, _) in enumerate(self.streams):
            if not self.short[i]:
                logical += [(i, j) for j in range(-(-len(d) // S))]
        logical += [('gap', i) for i in range(self.gaps)]
        per = S // 4
        nsat = 1
        while True:
            nx = self.msatx or max(0, -(-(nsat - 109) // (per - 1)))
            tot = len(logical) + nsat + nx
            if -(-tot // per) <= nsat:
                break
            nsat += 1
        nsat = max(nsat, satsize or 0)
        logical = ([('sat', i) for i in range(nsat)] +
                   [('msatx', i) for i in range(nx)] + logical)
        phys = list(place(logical)) if place else logical
        assert sorted(map(repr, phys)) == sorted(map(repr, logical))
        at = {x: i for i, x in enumerate(phys)}
        sat = [FREE] * (nsat * per)

        def chain(kind, n):
            for j in range(n):
                sat[at[(kind, j)]] = at[(kind, j + 1)] if j + 1 < n else EOC
            return at[(kind, 0)] if n else EOC
        for j in range(nsat):
            sat[at[('sat', j)]] = SATID
        for j in range(nx):
            sat[at[('msatx', j)]] = MSATID
        dirfirst = chain('dir', ndir)
        ssatfirst = chain('ssat', nssat)
        sscsfirst = chain('sscs', nsscs)
        first = {}
        for i, (n, d, _) in enumerate(self.streams):
            if not self.short[i]:
                first[i] = chain(i, -(-len(d) // S))
        first.update(sfirst)
        # MSAT: ids of SAT sectors
        msat = [at[('sat', j)] for j in range(nsat)]
        hm = msat[:109] if not self.msatx else msat[:max(0, min(
            109, nsat - 1))]
        rest = msat[len(hm):]
        hm = hm + [FREE] * (109 - len(hm))
        xs = []
        for j in range(nx):
            part = rest[j * (per - 1):(j + 1) * (per - 1)]
            part += [FREE] * (per - 1 - len(part))
            part.append(at[('msatx', j + 1)] if j + 1 < nx else EOC)
            xs.append(struct.pack('<%di' % per, *part))
        # directory tree
        did = {e: i + 1 for i, e in enumerate(ents)}
        kids = {}
        for i, (n, d, par) in enumerate(self.streams):
            kids.setdefault(par, []).append((n, did[('S', i)]))
        for n in self.storages:
            kids.setdefault(None, []).append((n, did[('D', n)]))
        links = {}
        roots = {}
        for par, ks in kids.items():
            ks.sort(key=lambda k: (len(k[0]), k[0].upper()))
            roots[par] = build_tree([k[1] for k in ks], links, tree)
        dents = [direntry('Root Entry', 5, -1, -1, roots.get(None, -1),
                          sscsfirst, len(sscs))]
        for e in ents:
            lf, rt = links.get(did[e], (-1, -1))
            if e[0] == 'S':
                n, d, _ = self.streams[e[1]]
                dents.append(direntry(n, 2, lf, rt, -1, first[e[1]],
                                      len(d)))
            elif e[0] == 'D':
                dents.append(direntry(e[1], 1, lf, rt, roots.get(e[1], -1),
                                      0, 0))
            else:
                dents.append(direntry('', 0, -1, -1, -1, 0, 0))
        while len(dents) * 128 < ndir * S:
            dents.append(direntry('', 0, -1, -1, -1, 0, 0))
        dbytes = b''.join(dents)
        sect = []
        ssatraw = struct.pack('<%di' % len(ssat), *ssat)
        ssatraw = ssatraw.ljust(nssat * S, b'\xff')
        satraw = struct.pack('<%di' % len(sat), *sat)
        for kind, j in phys:
            if kind == 'sat':
                b = satraw[j * S:(j + 1) * S]
            elif kind == 'msatx':
                b = xs[j]
            elif kind == 'dir':
                b = dbytes[j * S:(j + 1) * S]
            elif kind == 'ssat':
                b = ssatraw[j * S:(j + 1) * S]
            elif kind == 'sscs':
                b = sscs[j * S:(j + 1) * S].ljust(S, b'\0')
            elif kind == 'gap':
                b = b'\xAB' * S
            else:
                b = self.streams[kind][1][j * S:(j + 1) * S].ljust(S, b'\0')
            assert len(b) == S, (kind, j, len(b))
            sect.append(b)
        head = (SIG + b'\0' * 16 +
                struct.pack('<HHHHH', 0x3E, 3, 0xFFFE, self.ssz, self.sssz) +
                b'\0' * 10 +
                struct.pack('<iiiiiiii', nsat, dirfirst, 0, self.cutoff,
                            ssatfirst, nssat,
                            at[('msatx', 0)] if nx else EOC, nx) +
                struct.pack('<109i', *hm))
        assert len(head) == 512
        self.at, self.sat, self.ssat = at, sat, ssat
        self.phys, self.dents, self.first = phys, dents, first
        self.splace = sp
        return head + b''.join(sect)


def build_tree(ids, links, shape):
    """Binary tree over the ids in order; returns the root id."""
    if not ids:
        return -1
    if shape == 'right':
        k = 0
    elif shape == 'left':
        k = len(ids) - 1
    else:
        k = len(ids) // 2
    lf = build_tree(ids[:k], links, shape)
    rt = build_tree(ids[k + 1:], links, shape)
    links[ids[k]] = (lf, rt)
    return ids[k]


def simple_doc(stream, name='Workbook'):
    return Doc([(name, stream, None)]).build()


def perms(n):
    return itertools.permutations(range(n))
