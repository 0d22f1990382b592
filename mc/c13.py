"""C13: reading selected dbf fields equals selecting after a full read."""
import itertools
from core import expect, same
import packmodel as pm
import textmodel as tm
import dbfmodel as dm
from channelpack.dbf import dbfpack

PROP = 'C13'
ASSUMPTIONS = ['requested names exist in the file', 'when no record is left '
               'the pack may have no channels']


def case(R, layout, rows, deleted, order, kind, container, fnames=None):
    n = len(layout)
    names = fnames or [dm.fieldname(i) for i in range(n)]
    content = dm.write(layout, rows, deleted, True, fnames)
    req = container(names[i] for i in order)
    cols = sorted(i for i in range(n) if names[i] in
                  [names[j] for j in order])
    what = '%r rows %r deleted %r names=%r from %s' % (
        layout, rows, deleted, req, kind)
    src = dm.Src(kind, content)
    try:
        sel = dbfpack(src.arg, req)
        dm.check(sel, layout, rows, deleted, cols, names, what, src.name)
        full = dbfpack(__import__('io').BytesIO(content))
    finally:
        src.close()
    for k in cols:
        if k in full.data:
            same(pm.nlist(sel(k)), pm.nlist(full(k)),
                 what + ': selection versus full read, channel %d' % k)
            expect(sel(k).dtype == full(k).dtype,
                   '%s: dtype %s versus %s', what, sel(k).dtype,
                   full(k).dtype)
    R.step(2)
    R.state((layout, tuple(rows), deleted, tuple(order), kind))
    return (layout, tuple(rows), deleted, tuple(cols))


def subsets(n, orders):
    for k in range(1, n + 1):
        for c in (itertools.permutations(range(n), k) if orders
                  else itertools.combinations(range(n), k)):
            yield c


def layouts(R, nf, nrows, types, orders, allsrc, shard, nshards):
    try:
        i = 0
        for layout in itertools.product(types, repeat=nf):
            for n in range(0, nrows + 1):
                for deleted in itertools.product((False, True), repeat=n):
                    for order in subsets(nf, orders):
                        i += 1
                        if i % nshards != shard:
                            continue
                        rows = [tuple((r + 2 * c + i) %
                                      len(dm.TYPES[t][3])
                                      for c, t in enumerate(layout))
                                for r in range(n)]
                        j = i // nshards
                        srcs = dm.SOURCES if allsrc else (dm.SOURCES[j % 4],)
                        for kind in srcs:
                            R.do(case, layout, rows, deleted, order, kind,
                                 (list, tuple, set)[j % 3])
    finally:
        tm.cleanup()


def streams(R):
    """Streams without a file name."""
    try:
        for kind in tm.BINSTREAMS:
            for k in range(5):
                for pat in itertools.product((False, True), repeat=k):
                    for order in subsets(3, True):
                        R.do(case, ('n3', 'c4', 'l'),
                             [(i % 5, i % 3, i % 3) for i in range(k)], pat,
                             order, kind, list)
    finally:
        tm.cleanup()


def values(R, maxrows):
    """Every type: all columns of its values, as first, last or middle
    field of the record."""
    try:
        for t in sorted(dm.TYPES):
            nv = len(dm.TYPES[t][3])
            for pos in (0, 1, 2):
                layout = ['c4', 'n3']
                layout.insert(pos, t)
                for n in range(1, maxrows + 1):
                    if nv ** n > 1500:
                        continue
                    for vs in itertools.product(range(nv), repeat=n):
                        rows = []
                        for v in vs:
                            row = [(v + 1) % 5, v % 3]
                            row.insert(pos, v)
                            rows.append(tuple(row))
                        R.do(case, tuple(layout), rows, (False,) * n, (pos,),
                             'bytes', list)
                        if n == 2:
                            R.do(case, tuple(layout), rows, (True, False),
                                 (pos,), 'bytes', list)
    finally:
        tm.cleanup()


def dups(R):
    """Fields that share a name are all selected; names that are prefixes or
    substrings of each other are kept apart."""
    try:
        for i, (a, b) in enumerate(itertools.product(dm.FNAMES, repeat=2)):
            for fn in ((a, b, 'C'), ('C', a, b), (a, 'C', b)):
                for order in subsets(3, False):
                    R.do(case, ('n3', 'c4', 'l'),
                         [(0, 0, 0), (2, 1, 1), (4, 2, 2)],
                         (False, i % 2 == 1, False), order,
                         dm.SOURCES[i % 4], list, fn)
        for fn in (['A', 'B', 'A'], ['A', 'A', 'B'], ['AB', 'A', 'B'],
                   ['A', 'AB', 'ABC'], ['ABC', 'BC', 'C'], ['a', 'A', 'b']):
            for order in subsets(3, True):
                for deleted in itertools.product((False, True), repeat=3):
                    R.do(case, ('n3', 'c4', 'l'),
                         [(0, 0, 0), (2, 1, 1), (4, 2, 2)], deleted, order,
                         'bytes', list, fn)
    finally:
        tm.cleanup()


def big_case(R, kinds, n, delpat, sel, kind):
    """Selections of a large file."""
    fields, rows, deleted, want = dm.bigfile(kinds, n, delpat)
    if not want[0]:
        return None
    nf = len(fields)
    cols = {'all': list(range(nf)), 'first': [0], 'last': [nf - 1],
            'reversed': list(range(nf))[::-1], 'odd': list(range(nf))[1::2],
            'ends': [nf - 1, 0], 'text': sorted(range(nf), key=str),
            'allbut0': list(range(nf))[:0:-1]}[sel]
    if not cols:
        return None
    src = dm.Src(kind, dm.writeraw(fields, rows, deleted))
    what = '%s of %d records (deleted: %s), %d fields %r' % (
        sel, n, delpat, nf, kinds[:4])
    try:
        pack = dbfpack(src.arg, [fields[c][0] for c in cols])
        dm.checkraw(pack, fields, sorted(set(cols)), want, what, src.name)
    finally:
        src.close()
    R.step()
    R.state((tuple(kinds), n, delpat, sel, kind))
    return (nf, n, delpat, sel)


def bigs(R, shard, nshards, full):
    i = 0
    try:
        for ks, n, delpat in dm.bigcases(full):
            for sel in ('all', 'first', 'last', 'reversed', 'odd', 'ends',
                        'text', 'allbut0'):
                if n > 5000 and sel not in ('first', 'all'):
                    continue
                i += 1
                if i % nshards == shard:
                    R.do(big_case, ks, n, delpat, sel,
                         dm.SOURCES[i // nshards % 4])
    finally:
        tm.cleanup()


def domain_case(R, what, fields, rows, want, kind):
    """The field alone and next to an unselected one."""
    for pos in (0, 1, 2):
        fs, rs = list(fields), [list(r) for r in rows]
        at = 0
        if pos:
            at = 2 - pos
            fs.insert(1 - at, ('OTHER', b'C', 3, 0))
            for i, r in enumerate(rs):
                r.insert(1 - at, '%3d' % (i % 1000))
        src = dm.Src(kind, dm.writeraw(fs, rs))
        try:
            pack = dbfpack(src.arg, [fields[0][0]])
            dm.checkraw(pack, fs, [at], {at: want[0]}, what, src.name)
        finally:
            src.close()
        R.step(len(rows))
    R.state((what, kind))
    return (what, len(rows))


def domains(R):
    try:
        for w, f, rows, want in dm.domains():
            for kind in dm.SOURCES:
                R.do(domain_case, w, f, rows, want, kind)
            if len(rows) <= 600:
                for r, v in zip(rows, want[0]):
                    R.do(domain_case, '%s %r' % (w, r), f, [r], {0: [v]},
                         'bytes')
    finally:
        tm.cleanup()


def bounds(tier):
    return ('all layouts of <=3 fields (thorough: 4) x all deletion patterns '
            'of <=%d records x all name selections in all orders; all '
            'columns of values per type in every field position; up to 70001 '
            'records, 2046 fields, sizes to 255, 8 selections; the whole domains '
            'of field values of C12' %
            (4 if tier == 'quick' else 6))


def tasks(tier):
    q = tier == 'quick'
    ty = sorted(dm.TYPES)
    few = ['c4', 'n3', 'n62', 'd', 'l']
    t = [('values', (2 if q else 3,)), ('dups', ()), ('domains', ()),
         ('streams', ())]
    t += [('bigs', (s, 16, not q)) for s in range(16)]
    t += [('layouts', (1, 4 if q else 6, ty, True, True, 0, 1))]
    t += [('layouts', (2, 3 if q else 6, ty, True, not q, s, 8))
          for s in range(8)]
    t += [('layouts', (3, 3 if q else 5, few if q else ty, True, False, s,
                       64)) for s in range(64)]
    if q:
        t += [('layouts', (3, 5, ['c4', 'n3'], True, False, s, 16))
              for s in range(16)]
    if not q:
        t += [('layouts', (4, 4, few, False, False, s, 64))
              for s in range(64)]
    return t
