"""C18: xls strings survive every split across records."""
import itertools
import struct
from core import expect, same
import xlsgen as g
import gridmodel as gm
from gridmodel import TEXT, NUMBER

PROP = 'C18'
ASSUMPTIONS = ['breaks fall where the format allows them: between strings, '
               'between characters (16-bit units), between formatting runs, '
               'anywhere in phonetic data; never inside a string header']

# (text, number of formatting runs, size of phonetic data or None)
STRINGS = [('abc', 0, None), ('', 0, None), ('\xe5\xe4\xf6', 0, None),
           ('a\u1234b', 0, None), ('\U0001F600x', 0, None),
           ('ab', 2, None), ('a\u20ac', 1, 5), ('pq', 0, 4),
           ('\U00010000', 1, 3), ('', 1, 4), ('z', 3, 0),
           ('wxyz', 0, None), ('\u0100\u0101', 2, 6), ('q\U0001F601r', 2, 2)]


def units(s):
    raw = g.u16(s)
    return [raw[i:i + 2] for i in range(0, len(raw), 2)]


def atoms(s, runs, pho):
    """Kinds of atoms of one string: [('h',), ('c', unit)..., ('r', bytes)...,
    ('p', byte)...]"""
    out = [('h', None)]
    out += [('c', u) for u in units(s)]
    out += [('r', struct.pack('<HH', i, i + 1)) for i in range(runs)]
    out += [('p', bytes([0x41 + i])) for i in range(pho or 0)]
    return out


def narrow_ok(us):
    return all(u[1] == 0 for u in us)


class Illegal(Exception):
    pass


def encode(table, breaks, widths):
    """Raw SST + CONTINUE records.

    breaks: set of atom positions (over the whole table) before which a new
    record starts; widths: iterator giving, for each run of characters within
    one record, whether it is stored wide (forced where necessary)."""
    recs = [struct.pack('<II', len(table) + 3, len(table))]
    n = 0
    it = iter(widths)

    def nextwidth(us):
        w = next(it, 0)
        if not narrow_ok(us):
            return 1
        return w
    for s, runs, pho in table:
        at = atoms(s, runs, pho)
        nch = len(units(s))
        # split the characters in segments by the breaks
        segs = [[]]
        for i, a in enumerate(at):
            if a[0] == 'c':
                if n + i in breaks:
                    segs.append([])
                segs[-1].append(a[1])
        segi = 0
        for i, (kind, x) in enumerate(at):
            brk = n + i in breaks
            if kind == 'h':
                if brk:
                    recs.append(b'')
                w = nextwidth(segs[0]) if segs[0] else next(it, 0)
                opt = (1 if w else 0) | (8 if runs else 0) | (
                    4 if pho is not None else 0)
                recs[-1] += struct.pack('<HB', nch, opt)
                if runs:
                    recs[-1] += struct.pack('<H', runs)
                if pho is not None:
                    recs[-1] += struct.pack('<i', pho)
            elif kind == 'c':
                if brk:
                    segi += 1
                    w = nextwidth(segs[segi])
                    recs.append(bytes([1 if w else 0]))
                recs[-1] += x if w else x[:1]
            else:
                if brk:
                    recs.append(b'')
                recs[-1] += x
        n += len(at)
    return g.rec(0xFC, recs[0]) + b''.join(g.rec(0x3C, r) for r in recs[1:])


def natoms(table):
    return sum(len(atoms(*t)) for t in table)


def nwidths(table, breaks):
    """Number of character segments that may be stored narrow or wide."""
    n = 0
    k = 0
    for t in table:
        at = atoms(*t)
        k += 1
        k += sum(1 for i, a in enumerate(at) if a[0] == 'c' and n + i in
                 breaks)
        n += len(at)
    return k


def case(R, table, breaks, widths, fmt, dups):
    raw = encode(table, breaks, widths)
    order = list(range(len(table)))
    if dups:
        order = order[::-1] + order[:1]
    body = b''.join(g.labelsst(i, 1, 0, k) for i, k in enumerate(order))
    body += g.number(0, 2, 0, 8.5)
    wb = gm.open_bytes(g.workbook([('S', body)], raw, (0,),
                                  extra=g.rec(0x8C, b'\1\0\1\0')),
                       formatting_info=fmt)
    grid = {(i, 1): (TEXT, table[k][0]) for i, k in enumerate(order)}
    grid[0, 2] = (NUMBER, 8.5)
    what = 'strings %r broken before %r widths %r' % (
        table, sorted(breaks), widths)
    sh = wb.sheet_by_index(0)
    gm.check_sheet(sh, grid, what)
    if fmt:
        runs = {(i, 1): [(j, j + 1) for j in range(table[k][1])]
                for i, k in enumerate(order) if table[k][1]}
        same(dict(sh.rich_text_runlist_map), runs, what + ': runs')
    R.step(1 + len(breaks))
    R.state((table, tuple(sorted(breaks)), widths))
    return (tuple(t[0] for t in table), len(breaks))


def tables(maxlen, strings):
    for n in range(1, maxlen + 1):
        for t in itertools.product(strings, repeat=n):
            yield t


def split(R, maxlen, idx, nbreaks, allwidths, shard, nshards):
    """All tables x all sets of up to nbreaks breaks x all widths."""
    strings = [STRINGS[i] for i in idx]
    i = 0
    for t in tables(maxlen, strings):
        i += 1
        if i % nshards != shard:
            continue
        na = natoms(t)
        for nb in range(0, nbreaks + 1):
            for br in itertools.combinations(range(1, na), nb):
                b = frozenset(br)
                k = nwidths(t, b)
                if allwidths and k <= 6:
                    ws = itertools.product((0, 1), repeat=k)
                else:
                    ws = ((0,) * k, (1,) * k, ((0, 1) * k)[:k],
                          ((1, 0) * k)[:k])
                for w in ws:
                    R.do(case, t, b, tuple(w), sum(br) % 2 == 0,
                         sum(w) % 2 == 0)


def every(R, idx):
    """Breaks before every atom at once, and before all but one."""
    for t in tables(2, [STRINGS[i] for i in idx]):
        na = natoms(t)
        full = frozenset(range(1, na))
        for drop in [()] + [(i,) for i in range(na)]:
            b = full - set(drop)
            k = nwidths(t, b)
            for w in ((0,) * k, (1,) * k, ((0, 1) * k)[:k]):
                R.do(case, t, b, w, True, False)


# -- results of formulas ----------------------------------------------------

def enc_string(s, breaks, widths):
    us = units(s)
    cuts = [0] + sorted(breaks) + [len(us)]
    out = []
    for k in range(len(cuts) - 1):
        seg = us[cuts[k]:cuts[k + 1]]
        w = widths[k] or not narrow_ok(seg)
        raw = bytes([1 if w else 0]) + b''.join(
            u if w else u[:1] for u in seg)
        if k == 0:
            out.append(g.rec(0x207, struct.pack('<H', len(us)) + raw))
        else:
            out.append(g.rec(0x3C, raw))
    return b''.join(out)


def fcase(R, s, breaks, widths, shared):
    body = g.formula(0, 0, 0, g.fstr())
    if shared:
        body += g.shrfmla(0, 0)
    body += enc_string(s, breaks, widths) + g.number(1, 0, 0, 2.0)
    body += g.formula(1, 1, 0, g.fstr()) + g.string('next')
    wb = gm.open_bytes(g.workbook([('S', body)], None, (0,)))
    gm.check_sheet(wb.sheet_by_index(0),
                   {(0, 0): (TEXT, s), (1, 0): (NUMBER, 2.0),
                    (1, 1): (TEXT, 'next')},
                   'formula result %r broken at %r widths %r' % (
                       s, breaks, widths))
    R.step(2 + len(breaks))
    R.state(('f', s, breaks, widths, shared))
    return (s, breaks)


ALPHA = ['a', '\xe9', '\u1234', '\U0001F600']


def fstrings(R, maxlen, maxbreaks, shard, nshards):
    i = 0
    for n in range(1, maxlen + 1):
        for cs in itertools.product(ALPHA, repeat=n):
            i += 1
            if i % nshards != shard:
                continue
            s = ''.join(cs)
            nu = len(units(s))
            for nb in range(0, maxbreaks + 1):
                for br in itertools.combinations(range(0, nu), nb):
                    for w in itertools.product((0, 1), repeat=nb + 1):
                        R.do(fcase, s, br, w, nb == 1)


def big(R):
    """Tables and results longer than a record can hold, broken at every
    position around the limit."""
    for ch in ('x', '\u1234', '\U0001F600'):
        for first in range(0, 6):
            s = 'ab'[:first % 3] + ch * (5000 if ch == 'x' else 2500)
            k = len(units(s))
            for at in (1, k // 2, k // 2 + 1, k - 1):
                if (max(at, k - at) + 2) * (1 + (ch != 'x')) > 8000:
                    continue
                R.do(fcase, s, (at,), (ch != 'x', ch != 'x'), False)
                t = ((s, 0, None), ('end', 1, None))
                R.do(case, t, frozenset([1 + at]), (int(ch != 'x'),) * 3,
                     False, True)


# -- large tables -----------------------------------------------------------

def greedy(table, limit, widths='own'):
    """SST and CONTINUE records of at most limit bytes, each filled as far as
    it goes.  widths: 'own' each string in the narrowest width, 'flip' a part
    after a break in the other width where possible."""
    recs = [bytearray(struct.pack('<II', len(table), len(table)))]
    nrec = 0
    for s, runs, pho in table:
        raw = g.u16(s)
        nch = len(raw) // 2
        narrow = not any(raw[1::2])
        hdr = 3 + (2 if runs else 0) + (4 if pho is not None else 0)
        if len(recs[-1]) + hdr > limit:
            recs.append(bytearray())
        w = 0 if narrow else 1
        recs[-1] += struct.pack('<HB', nch, w | (8 if runs else 0) |
                                (4 if pho is not None else 0))
        if runs:
            recs[-1] += struct.pack('<H', runs)
        if pho is not None:
            recs[-1] += struct.pack('<i', pho)
        at = 0
        while at < nch:
            n = min(nch - at, (limit - len(recs[-1])) >> w)
            if n > 0:
                part = raw[2 * at:2 * (at + n)]
                recs[-1] += part if w else part[::2]
                at += n
            if at < nch:
                if narrow and widths == 'flip':
                    w = 1 - w
                recs.append(bytearray([w]))
        for i in range(runs):
            if len(recs[-1]) + 4 > limit:
                recs.append(bytearray())
            recs[-1] += struct.pack('<HH', i, i % 7)
        left = b'P' * (pho or 0)
        while left:
            n = limit - len(recs[-1])
            if n <= 0:
                recs.append(bytearray())
                continue
            recs[-1] += left[:n]
            left = left[n:]
    return b''.join(g.rec(0x3C if i else 0xFC, bytes(r))
                    for i, r in enumerate(recs)), len(recs)


def bigtable(name):
    if name == 'many':
        return [('s%d' % i, 0, None) for i in range(70001)]
    if name == 'manyempty':
        return [('', 0, None)] * 40000 + [('e%d' % i, 0, None)
                                          for i in range(30000)]
    if name == 'manywide':
        return [('\u1234%d' % i, i % 3 == 0, None) for i in range(34000)]
    if name == 'mixed':
        return [(('n%d' % i, '\u4e2d%d' % i, '\U0001F600%d' % i, '')[i % 4],
                 (0, 0, 2, 1, 0)[i % 5], (None, None, 3)[i % 3])
                for i in range(3000)]
    if name == 'long':
        return [('a' * 32767, 0, None), ('\u1234' * 32767, 0, None),
                ('\U0001F600' * 16383, 0, None), ('b' * 16384, 0, None),
                ('\u20ac' * 16385, 1, None), ('end', 0, None),
                (''.join(chr(32 + i % 200) for i in range(30000)), 0, None),
                (''.join(chr(0x3000 + i) for i in range(20000)), 0, 4)]
    if name == 'runs':
        return [('rich', n, None) for n in (1, 2, 127, 128, 255, 256, 257,
                                            1000, 2056, 4000, 32767, 32768,
                                            65535)] + [('end', 0, None)]
    if name == 'phonetic':
        return [('ph', 0, n) for n in (0, 1, 127, 128, 255, 256, 8223, 8224,
                                       32767, 32768, 65535, 65536, 100000)] + [
            ('rp', 300, 300), ('end', 0, None)]
    raise KeyError(name)


TABLES = ('many', 'manyempty', 'manywide', 'mixed', 'long', 'runs',
          'phonetic')


def bigcase(R, name, limit, widths):
    table = bigtable(name)
    raw, nrec = greedy(table, limit, widths)
    n = len(table)
    idx = sorted(set(x for k in range(0, 18) for x in (
        2 ** k - 1, 2 ** k, 2 ** k + 1) if x < n) |
        set(range(min(n, 30))) | set(range(max(0, n - 30), n)) |
        set(range(0, n, 97)))[::-1]
    body = b''.join(g.labelsst(i, 0, 0, k) for i, k in enumerate(idx))
    wb = gm.open_bytes(g.workbook([('S', body)], raw, (0,)),
                       formatting_info=True)
    sh = wb.sheet_by_index(0)
    what = 'table %r of %d strings in %d records of at most %d bytes (%s)' % (
        name, n, nrec, limit, widths)
    same(sh.nrows, len(idx), what + ': rows')
    runs = {}
    for i, k in enumerate(idx):
        got = sh.cell_value(i, 0)
        want = table[k][0]
        expect(got == want, '%s: string %d is %.80r of length %d, should be '
               '%.80r of length %d', what, k, got, len(got), want, len(want))
        if table[k][1]:
            runs[i, 0] = [(j, j % 7) for j in range(int(table[k][1]))]
    got = dict(sh.rich_text_runlist_map)
    same(sorted(got), sorted(runs), what + ': cells with runs')
    for k in runs:
        expect(got[k] == runs[k], '%s: runs of cell %r differ', what, k)
    R.step(nrec)
    R.state(('big', name, limit, widths))
    return name, limit, widths, nrec


def bigtables(R, name, limits):
    for limit in limits:
        for widths in ('own', 'flip'):
            R.do(bigcase, name, limit, widths)


def flong(R, n):
    """Long results of formulas in as many records as it takes."""
    for s in ('a' * n, '\u1234' * n, '\U0001F600' * (n // 2),
              'ab\u1234' * (n // 3)):
        k = len(units(s))
        for per in (4000, 4096, 2000, 1024, 127, 128):
            if k // per > 300:
                continue
            br = tuple(range(per, k, per))
            for w in ((0,) * (len(br) + 1), (1,) * (len(br) + 1),
                      ((0, 1) * (len(br) + 1))[:len(br) + 1]):
                R.do(fcase, s, br, w, False)


def bounds(tier):
    return ('tables of <=%s of 14 strings (narrow, wide, outside the basic '
            'plane, empty, rich, phonetic), all sets of <=%d breaks, all '
            'width choices; formula results: all strings of <=%d characters '
            'of 4 kinds, <=%d breaks, all widths; 7 large tables (to 70001 '
            'strings, 32767 characters, 65535 runs, 100000 phonetic bytes) '
            'in records of every listed size' %
            ((2, 2, 4, 2) if tier == 'quick' else (3, 3, 5, 3)))


def tasks(tier):
    q = tier == 'quick'
    allidx = list(range(len(STRINGS)))
    t = [('big', ()), ('every', (allidx,))]
    t += [('flong', (n,)) for n in (4097, 9000, 32767)]
    t += [('bigtables', (n, (8224,))) for n in TABLES]
    t += [('bigtables', ('mixed', (x, x + 1, x + 2, x + 3)))
          for x in (16, 100, 1000, 8220)]
    t += [('bigtables', (n, (100, 101) if q else (100, 101, 102, 103, 8223,
                                                  8222, 8221)))
          for n in ('long', 'runs', 'phonetic')]
    if not q:
        t += [('bigtables', ('mixed', (x,))) for x in range(12, 140)]
        t += [('bigtables', (n, (x,))) for x in range(8216, 8224)
              for n in TABLES]
    t += [('split', (1, allidx, 3 if q else 5, True, s, 4))
          for s in range(4)]
    t += [('split', (2, allidx, 2 if q else 4, not q, s, 32))
          for s in range(32)]
    if not q:
        t += [('split', (3, allidx, 3, False, s, 128)) for s in range(128)]
    else:
        t += [('split', (3, [0, 3, 4, 6, 10], 1, False, s, 16))
              for s in range(16)]
    t += [('fstrings', (4 if q else 5, 2 if q else 4, s, 8))
          for s in range(8)]
    return t
