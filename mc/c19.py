"""C19: workbook content does not depend on compound-file layout."""
import itertools
import xlsgen as g
import gridmodel as gm
from gridmodel import TEXT, NUMBER, DATE, BOOL

PROP = 'C19'
ASSUMPTIONS = ['512 byte header, sector sizes 128 to 4096, short sectors 16 '
               'to the size of a sector']


def body(n):
    return b''.join(g.number(i, i % 5, i % 2, i + 0.5) for i in range(n))


def grid(n):
    return {(i, i % 5): ((NUMBER, DATE)[i % 2], i + 0.5) for i in range(n)}


def make(size):
    """A workbook stream of exactly the given size and its grids."""
    second = (g.labelsst(0, 0, 0, 1) + g.boolerr(1, 1, 0, 1, 0) +
              g.label(2, 0, 0, 'l\xe5ng'))
    g2 = {(0, 0): (TEXT, 'two'), (1, 1): (BOOL, 1), (2, 0): (TEXT, 'l\xe5ng')}

    def wb(n, p):
        return g.workbook([('First', body(n)), ('Second', second)],
                          ['one', 'two'], (0, 14), globalpad=p)
    n = 0
    base = len(wb(0, 0))
    n = max(0, (size - base - 4) // 18)
    while True:
        p = size - len(wb(n, 0))
        if p == 0 or p >= 4:
            break
        n -= 1
    s = wb(n, p)
    assert len(s) == size, (len(s), size)
    return s, [grid(n), g2]


CACHE = {}


def get(size):
    if size not in CACHE:
        CACHE[size] = make(size)
    return CACHE[size]


def compare(R, content, grids, what):
    wb = gm.open_bytes(content)
    assert wb.nsheets == 2
    for i in range(2):
        gm.check_sheet(wb.sheet_by_index(i), grids[i],
                       '%s sheet %d' % (what, i))
    return hash(content)


def blocks_case(R, size, cuts, order, ssz):
    """The stream cut in contiguous pieces; pieces, allocation table,
    directory and unused sectors in the given order."""
    s, grids = get(size)
    d = g.Doc([('Workbook', s, None)], ssz=ssz, gaps=1)
    n = -(-size // (1 << ssz))
    edges = [0] + list(cuts) + [n]

    def place(logical):
        groups = [[(0, j) for j in range(edges[i], edges[i + 1])]
                  for i in range(len(edges) - 1)]
        rest = [x for x in logical if x[0] != 0]
        kinds = {}
        for x in rest:
            kinds.setdefault(x[0], []).append(x)
        groups += [kinds[k] for k in sorted(kinds)]
        assert len(groups) == len(order), (len(groups), len(order))
        return [x for i in order for x in groups[i]]
    content = d.build(place)
    what = 'stream of %d bytes cut at %r, order %r' % (size, cuts, order)
    R.step()
    R.state((size, cuts, order, ssz))
    compare(R, content, grids, what)
    return (len(cuts), order)


def blocks(R, size, ncuts, ssz, shard, nshards):
    n = -(-size // (1 << ssz))
    i = 0
    for cuts in itertools.combinations(range(1, n), ncuts):
        for order in itertools.permutations(range(ncuts + 1 + 3)):
            i += 1
            if i % nshards == shard:
                R.do(blocks_case, size, cuts, order, ssz)


def tail_case(R, size, ssz, tail):
    """The file ends with the last byte of the stream (tail 0), with part of
    the padding of its sector, or bytes follow the last sector."""
    s, grids = get(size)
    n = 1 << ssz
    d = g.Doc([('Workbook', s, None)], ssz=ssz)
    content = d.build(lambda logical: [x for x in logical if x[0] != 0] +
                      [x for x in logical if x[0] == 0])
    fill = -size % n
    if tail <= fill:
        content = content[:len(content) - fill + tail]
    else:
        content += b'\xE5' * (tail - fill)
    R.step()
    R.state((size, ssz, tail))
    compare(R, content, grids, 'stream of %d bytes and %d more' % (size, tail))
    return (-size % n, tail)


def tails(R, ssz, sizes):
    for size in sizes:
        fill = -size % (1 << ssz)
        for tail in sorted({0, 1, fill // 2, fill, fill + 1, fill + 63,
                            fill + 64, fill + 511, fill + 512, fill + 5000,
                            fill + (1 << ssz) - 1}):
            R.do(tail_case, size, ssz, tail)


def full_case(R, size, perm, ssz=9):
    """Any permutation of all sectors (the positions of some)."""
    s, grids = get(size)
    d = g.Doc([('Workbook', s, None)], ssz=ssz)

    def place(logical):
        return [logical[i] for i in perm]
    content = d.build(place)
    R.step()
    R.state((size, perm, ssz))
    compare(R, content, grids, 'sector permutation %r' % (perm,))
    return perm


def full(R, size, ssz, shard, nshards):
    """All permutations of all sectors of a document."""
    n = 2 + -(-size // (1 << ssz))
    for i, perm in enumerate(itertools.permutations(range(n))):
        if i % nshards == shard:
            R.do(full_case, size, perm, ssz)


def short_case(R, size, perm, sgaps, sssz, order, extra):
    """Short stream storage with its sectors permuted."""
    s, grids = get(size)
    streams = [('Workbook', s, None)]
    if extra:
        streams.append(('Other', b'x' * 100, None))
    d = g.Doc(streams, sssz=sssz)

    def place(logical):
        kinds = {}
        for x in logical:
            kinds.setdefault(x[0] if x[0] != 'sscs' else 'sscs%d' % x[1],
                             []).append(x)
        ks = sorted(kinds)
        return [x for i in order for x in kinds[ks[i % len(ks)]]] if len(
            order) == len(ks) else logical
    content = d.build(place if order else None, perm, sgaps=sgaps)
    R.step()
    R.state((size, perm, sgaps, sssz, order, extra))
    compare(R, content, grids, 'short stream of %d bytes, sectors %r of %d, '
            'big sectors in order %r' % (size, perm, 1 << sssz, order))
    return (perm, order)


def chunks(n, ncuts):
    """All orders of all cuts of range(n) in ncuts + 1 pieces."""
    for cuts in itertools.combinations(range(1, n), ncuts):
        e = [0] + list(cuts) + [n]
        parts = [list(range(e[i], e[i + 1])) for i in range(ncuts + 1)]
        for o in itertools.permutations(parts):
            yield tuple(x for p in o for x in p)


def short(R, size, sgaps, sssz, ncuts, shard, nshards):
    ss = 1 << sssz
    n = -(-size // ss)
    seen = set()
    i = 0
    for extra in (False, True):
        tot = n + sgaps + (-(-100 // ss) if extra else 0)
        for k in range(ncuts + 1):
            for perm in chunks(tot, k):
                if (perm, extra) in seen:
                    continue
                seen.add((perm, extra))
                i += 1
                if i % nshards == shard:
                    R.do(short_case, size, perm, sgaps, sssz, (), extra)


def short_big(R, size):
    """The sectors of the container and its tables in every order."""
    d = g.Doc([('Workbook', get(size)[0], None)])
    d.build()
    ks = sorted(set(x[0] if x[0] != 'sscs' else 'sscs%d' % x[1]
                    for x in d.phys))
    n = len(d.splace)
    for order in itertools.permutations(range(len(ks))):
        R.do(short_case, size, tuple(range(n)), 0, 6, order, False)
        R.do(short_case, size, tuple(range(n))[::-1], 0, 6, order, False)


SIZES = [1200, 4095, 4096, 4097, 4607, 4608, 4609, 8192, 9000]


def dir_case(R, size, name, others, dirorder, tree, dirpad, storage):
    s, grids = get(size)
    streams = [(name, s, None)]
    streams += [(n, d, None) for n, d in others]
    sto = ()
    if storage:
        sto = ('_VBA',)
        streams.append(('Workbook' if storage == 2 else 'dir',
                        g.workbook([('Wrong', b'')], None), '_VBA'))
    d = g.Doc(streams, dirpad=dirpad, storages=sto)
    content = d.build(None, None, tree, dirorder)
    R.step()
    R.state((size, name, len(others), dirorder, tree, dirpad, storage))
    compare(R, content, grids, 'stream %r of %d bytes, others %r, directory '
            'order %r tree %s' % (name, size, [o[0] for o in others],
                                  dirorder, tree))
    return (dirorder, tree, name)


OTHERS = [('\x05SummaryInformation', b's' * 300), ('Zeta', b'z' * 5000),
          ('A', b'')]


def directory(R, size):
    for name in ('Workbook', 'Book', 'WORKBOOK', 'book'):
        for no in range(0, 4):
            for tree in ('right', 'left', 'mid'):
                for dirpad in (0, 2):
                    for storage in (0, 1, 2):
                        n = 1 + no + dirpad + (2 if storage else 0)
                        if storage == 2 and name.lower() != 'workbook':
                            continue
                        if n > 5:
                            continue
                        for o in itertools.permutations(range(n)):
                            R.do(dir_case, size, name, tuple(OTHERS[:no]), o,
                                 tree, dirpad, storage)


def bare_case(R, size):
    s, grids = get(size)
    R.step()
    R.state(('bare', size))
    compare(R, s, grids, 'bare stream of %d bytes' % size)
    return ('bare', size)


def sizes(R, ssz, lo, hi, step):
    """Every stream size in a range, bare, short or standard."""
    for size in range(lo, hi, step):
        R.do(bare_case, size)
        n = -(-size // (1 << ssz))
        if size >= 4096:
            R.do(blocks_case, size, (n // 2,), (1, 3, 0, 4, 2)[:5], ssz) \
                if n > 1 else None
            R.do(blocks_case, size, (), (2, 0, 3, 1), ssz)
        else:
            m = -(-size // 64)
            R.do(short_case, size, tuple(range(m)), 0, 6, (), False)
            R.do(short_case, size, tuple(range(m))[::-1], 0, 6, (), False)


def msat_case(R, ssz, nsec, msatx, where):
    """A document with so many (unused) sectors that it needs more
    allocation table sectors than the header can list, or one that uses the
    extension although it need not."""
    s, grids = get(4200)
    d = g.Doc([('Junk', b'j' * (nsec << ssz), None), ('Workbook', s, None)],
              ssz=ssz, msatx=msatx)

    def place(logical):
        if where == 'first':
            return logical
        if where == 'last':
            return logical[::-1]
        k = len(logical) // 2
        return logical[k:] + logical[:k]
    content = d.build(place)
    R.step()
    R.state(('msat', ssz, nsec, msatx, where))
    compare(R, content, grids, 'extended allocation, sector size %d, %d '
            'sectors, %d forced' % (1 << ssz, nsec, msatx))
    return (ssz, nsec, msatx, where)


def msat(R, ssz, nsec, msatx):
    for where in ('first', 'last', 'mid'):
        R.do(msat_case, ssz, nsec, msatx, where)


# -- large documents --------------------------------------------------------

def order_of(how, xs):
    if how == 'reverse':
        return xs[::-1]
    if how.startswith('stride'):
        k = int(how[6:])
        return [x for i in range(k) for x in xs[i::k]]
    if how == 'swap':           # pairs swapped
        out = list(xs)
        for i in range(0, len(out) - 1, 2):
            out[i], out[i + 1] = out[i + 1], out[i]
        return out
    assert how == 'straight'
    return xs


def frag_case(R, size, ssz, how, gaps):
    """A long stream in very many fragments."""
    s, grids = get(size)
    d = g.Doc([('Workbook', s, None)], ssz=ssz, gaps=gaps)
    content = d.build(lambda logical: order_of(how, logical))
    R.step()
    R.state(('frag', size, ssz, how, gaps))
    compare(R, content, grids, 'stream of %d bytes, sectors of %d, %s' % (
        size, 1 << ssz, how))
    return how, ssz, size


def frags(R, size, ssz):
    for how in ('straight', 'reverse', 'stride2', 'stride3', 'stride17',
                'stride64', 'stride129', 'swap'):
        for gaps in (0, 5):
            R.do(frag_case, size, ssz, how, gaps)


def hole_case(R, n, at, gap, ssz):
    """A stream whose sectors follow each other but for one hole."""
    s, grids = get(n << ssz)
    d = g.Doc([('Workbook', s, None)], ssz=ssz, gaps=gap)

    def place(logical):
        mine = [x for x in logical if x[0] == 0]
        holes = [x for x in logical if x[0] == 'gap']
        rest = [x for x in logical if x[0] not in (0, 'gap')]
        return mine[:at] + holes + mine[at:] + rest
    R.step()
    R.state(('hole', n, at, gap, ssz))
    compare(R, d.build(place), grids, 'stream of %d sectors of %d, %d others '
            'after %d' % (n, 1 << ssz, gap, at))


def holes(R, n, ssz, step, shard, nshards):
    for at in range(1, n):
        if at % nshards != shard:
            continue
        if at < 66 or step == 1 or any(
                (at + 1) % m < 3 for m in (step, 100, 128)):
            for gap in (1, 2) if at < 20 else (1,):
                R.do(hole_case, n, at, gap, ssz)


def entries_case(R, size, n, at, tree, name):
    """A directory of many entries."""
    s, grids = get(size)
    others = [('S%d' % i, b'y' * (i % 3 * 20), None) for i in range(n)]
    streams = others[:at] + [(name, s, None)] + others[at:]
    content = g.Doc(streams).build(None, None, tree)
    R.step()
    R.state(('entries', size, n, at, tree, name))
    compare(R, content, grids, 'directory of %d streams, the workbook is '
            'number %d, tree %s' % (n + 1, at, tree))
    return n, at, tree


def entries(R, n):
    for size in (1200, 4200):
        for at in sorted(set(x for x in (0, 1, 2, 3, 7, 15, 29, 30, 31, 32,
                                         62, 63, 64, 247, 248, 249, 250,
                                         255, 256, n // 2, n - 1, n)
                             if 0 <= x <= n)):
            for tree in ('right', 'left', 'mid')[2 * (n > 500):]:
                R.do(entries_case, size, n, at, tree,
                     'Workbook' if at % 2 else 'Book')


def manyshort_case(R, ssz, sssz, n, at, how, cutoff=4096):
    """A container with many short sectors."""
    s, grids = get(1200)
    others = [('S%d' % i, bytes([65 + i % 26]) * (1000 + 37 * i % 2000), None)
              for i in range(n)]
    streams = others[:at] + [('Workbook', s, None)] + others[at:]
    d = g.Doc(streams, ssz=ssz, sssz=sssz, cutoff=cutoff)
    k = sum(d.shortchain())
    content = d.build(None, order_of(how, list(range(k))))
    R.step()
    R.state(('manyshort', ssz, sssz, n, at, how))
    compare(R, content, grids, 'sectors of %d, %d short sectors of %d, %s' % (
        1 << ssz, k, 1 << sssz, how))
    return ssz, sssz, n, at, how


def manyshort(R, ssz, sssz):
    for n in (1, 5, 12, 30):
        for at in sorted({0, n // 2, n}):
            for how in ('straight', 'reverse', 'stride2', 'stride31'):
                R.do(manyshort_case, ssz, sssz, n, at, how)


def cutoff_case(R, cutoff, size, other, ssz):
    """The size from which streams are stored in full sectors."""
    s, grids = get(size)
    d = g.Doc([('Other', b'o' * other, None), ('Workbook', s, None)],
              cutoff=cutoff, ssz=ssz)
    R.step()
    R.state(('cutoff', cutoff, size, other, ssz))
    compare(R, d.build(), grids, 'cutoff %d, stream of %d bytes, other of '
            '%d' % (cutoff, size, other))
    return cutoff, size, other


def cutoffs(R, cutoff):
    for size in sorted({1200, cutoff - 65, cutoff - 64, cutoff - 1, cutoff,
                        cutoff + 1, cutoff + 511, cutoff + 512, 4095, 4096,
                        4097, 9000}):
        if size < 1000:
            continue
        for other in (0, 1, cutoff - 1, cutoff, cutoff + 1):
            for ssz in (8, 9, 10):
                R.do(cutoff_case, cutoff, size, other, ssz)


def bounds(tier):
    return ('streams of 1200..9000 bytes: every cut in <=%d pieces x all '
            'orders of pieces, tables, directory and gap; all permutations of '
            'the sectors of documents of up to %d sectors; short sectors in <=%d '
            'pieces in all orders; all directory orders of <=5 entries, 3 '
            'tree shapes; all stream sizes %s; extended allocation table; '
            'up to 70000 sectors, 1100 fragments, 1200 directory entries, 40 '
            'kB of short sectors, sector sizes 128 to 4096, short sectors 16 to '
            '1024, 5 cutoffs; one hole after each of up to 620 sectors' %
            ((3, 7, 3, '1200..9000 step 37')
             if tier == 'quick' else (5, 10, 5, '1200..9000')))


def tasks(tier):
    q = tier == 'quick'
    t = []
    t += [('sizes', (9, lo, min(lo + 1000, 9001), 37 if q else 1))
          for lo in range(1200, 9001, 1000)]
    t += [('sizes', (9, 4080, 4112, 1))]
    t += [('directory', (sz,)) for sz in (1200, 4096, 4700)]
    t += [('short_big', (1200,))]
    t += [('tails', (z, tuple(range(4096 + i, 5200, 72 if q else 8))))
          for z in (7, 8, 9, 10, 12) for i in (0, 1, 37)]
    t += [('msat', a) for a in ((7, 40, 1), (9, 20, 1), (9, 300, 1),
                                (9, 300, 2), (7, 3600, 0), (7, 4400, 0),
                                (7, 8000, 0))]
    t += [('msat', (7, n, 0)) for n in (12000, 45000)]
    t += [('frags', a) for a in ((140000, 7), (70000, 9), (20000, 8),
                                 (40000, 10), (9000, 12))]
    t += [('entries', (n,)) for n in (12, 40, 70, 130, 256,
                                         1200)]
    t += [('manyshort', (a, b)) for a, b in ((7, 6), (8, 5), (9, 6), (10, 6),
                                             (11, 5), (12, 7), (7, 7), (9, 4),
                                             (9, 9), (9, 8), (10, 10))]
    t += [('holes', (n, z, 20 if q else 1, i, 4))
          for n, z in ((70, 7), (620, 7)) + (() if q else ((520, 9),))
          for i in range(4)]
    t += [('cutoffs', (c,)) for c in (1500, 2048, 4096, 5000, 8192)]
    if not q:
        t += [('entries', (300,)), ('frags', (1000000, 9)),
              ('msat', (7, 70000, 0))]
    if not q:
        t += [('msat', (9, 14200, 0)), ('msat', (9, 40000, 0))]
    t += [('blocks', (4096, k, 9, s, 8)) for k in (0, 1, 2)
          for s in range(8)]
    t += [('blocks', (4607, k, 9, 0, 1)) for k in (0, 1)]
    t += [('blocks', (4096, k, 10, 0, 1)) for k in (0, 1, 2)]
    t += [('blocks', (4200, 1, 8, 0, 1)), ('blocks', (4200, 1, 7, 0, 1))]
    if not q:
        t += [('blocks', (4096, 3, 9, s, 16)) for s in range(16)]
        t += [('blocks', (5000, 3, 9, s, 64)) for s in range(64)]
        t += [('blocks', (4096, 4, 9, s, 64)) for s in range(64)]
    t += [('short', (1200, gp, z, 2, s, 4)) for gp, z in ((0, 6), (2, 6),
                                                          (1, 5))
          for s in range(4)]
    if not q:
        t += [('short', (1200, 0, 6, 3, s, 16)) for s in range(16)]
        t += [('short', (2500, 1, 6, 2, s, 32)) for s in range(32)]
        t += [('short', (1200, 0, 6, 4, s, 64)) for s in range(64)]
    t += [('full', (4096, 10, s, 8)) for s in range(8)]
    t += [('full', (4200, 10, s, 8)) for s in range(8)]
    if not q:
        t += [('full', (4096, 9, s, 64)) for s in range(64)]
    return t
