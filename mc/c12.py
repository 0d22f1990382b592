"""C12: a dbf file is read record for record with correct types."""
import itertools
from core import expect, same
import packmodel as pm
import textmodel as tm
import dbfmodel as dm
from channelpack.dbf import dbfpack

PROP = 'C12'
ASSUMPTIONS = ['well formed dbf files, ASCII text, header terminated '
               'directly after the field descriptors',
               'when no record is left the pack may have no channels']


def case(R, layout, rows, deleted, kind, eof, fnames=None):
    content = dm.write(layout, rows, deleted, eof, fnames)
    src = dm.Src(kind, content)
    try:
        pack = dbfpack(src.arg)
        dm.check(pack, layout, rows, deleted, range(len(layout)),
                 fnames or [dm.fieldname(i) for i in range(len(layout))],
                 '%r rows %r deleted %r from %s' % (layout, rows, deleted,
                                                    kind), src.name)
    finally:
        src.close()
    R.step()
    R.state((layout, tuple(rows), deleted, kind, eof, fnames))
    return (layout, tuple(rows), deleted, fnames)


def streams(R):
    """Streams without a file name."""
    try:
        for kind in tm.BINSTREAMS:
            for k in range(5):
                for pat in itertools.product((False, True), repeat=k):
                    R.do(case, ('n3', 'c4', 'l'),
                         [(i % 5, i % 3, i % 3) for i in range(k)], pat,
                         kind, bool(k % 2))
    finally:
        tm.cleanup()


def fieldnames(R):
    """Every pair of names on two of three fields."""
    try:
        for i, (a, b) in enumerate(itertools.product(dm.FNAMES, repeat=2)):
            for fn in ((a, b, 'C'), ('C', a, b), (a, 'C', b)):
                R.do(case, ('n3', 'c4', 'l'),
                     [(0, 0, 0), (2, 1, 1), (4, 2, 2)],
                     (False, i % 2 == 1, False), dm.SOURCES[i % 4], True, fn)
    finally:
        tm.cleanup()


def values(R, maxrows):
    """Every type: all columns of its values, all deletion patterns."""
    try:
        for t in sorted(dm.TYPES):
            nv = len(dm.TYPES[t][3])
            for n in range(0, maxrows + 1):
                if nv ** n > 2000:
                    continue
                for i, vs in enumerate(itertools.product(range(nv),
                                                         repeat=n)):
                    R.do(case, (t,), [(v,) for v in vs], (False,) * n,
                         dm.SOURCES[i % 4], i % 3 != 0)
    finally:
        tm.cleanup()


def layouts(R, nf, nrows, types, allsrc, shard, nshards):
    try:
        i = 0
        for layout in itertools.product(types, repeat=nf):
            for n in range(0, nrows + 1):
                for deleted in itertools.product((False, True), repeat=n):
                    i += 1
                    if i % nshards != shard:
                        continue
                    rows = [tuple((r + 2 * c + i) % len(dm.TYPES[t][3])
                                  for c, t in enumerate(layout))
                            for r in range(n)]
                    j = i // nshards
                    srcs = dm.SOURCES if allsrc else (dm.SOURCES[j % 4],)
                    for kind in srcs:
                        R.do(case, layout, rows, deleted, kind, j % 2 == 0)
    finally:
        tm.cleanup()


def pairs(R, ta, tb, shard, nshards):
    """Two fields, two records: all values, all deletions."""
    va, vb = len(dm.TYPES[ta][3]), len(dm.TYPES[tb][3])
    try:
        for i, (a1, b1, a2, b2) in enumerate(itertools.product(
                range(va), range(vb), range(va), range(vb))):
            if i % nshards != shard:
                continue
            for deleted in ((False, False), (True, False), (False, True)):
                R.do(case, (ta, tb), [(a1, b1), (a2, b2)], deleted, 'bytes',
                     True)
    finally:
        tm.cleanup()


def raw_case(R, what, fields, rows, want, kind):
    content = dm.writeraw(fields, rows)
    src = dm.Src(kind, content)
    try:
        pack = dbfpack(src.arg)
        dm.checkraw(pack, fields, list(range(len(fields))), want, what,
                    src.name)
    finally:
        src.close()
    R.step(len(rows))
    R.state((what, kind))
    return (what, len(rows))


def domains(R):
    """Whole domains of field values (see dbfmodel)."""
    try:
        for w, f, rows, want in dm.domains():
            for kind in dm.SOURCES:
                R.do(raw_case, w, f, rows, want, kind)
            # each alone: the conversion does not depend on the neighbours
            if len(rows) <= 600:
                for r, v in zip(rows, want[0]):
                    R.do(raw_case, '%s %r' % (w, r), f, [r], {0: [v]},
                         'bytes')
    finally:
        tm.cleanup()


def big_case(R, kinds, n, delpat, kind):
    fields, rows, deleted, want = dm.bigfile(kinds, n, delpat)
    if not want[0]:
        return None
    src = dm.Src(kind, dm.writeraw(fields, rows, deleted))
    try:
        pack = dbfpack(src.arg)
        dm.checkraw(pack, fields, list(range(len(fields))), want,
                    '%d records (deleted: %s), %d fields %r' % (
                        n, delpat, len(kinds), kinds[:4]), src.name)
    finally:
        src.close()
    R.step()
    R.state((tuple(kinds), n, delpat, kind))
    return (len(kinds), n, delpat)


def bigs(R, shard, nshards, full):
    try:
        for i, c in enumerate(dm.bigcases(full)):
            if i % nshards == shard:
                R.do(big_case, *c, dm.SOURCES[i // nshards % 4])
    finally:
        tm.cleanup()


def bounds(tier):
    return ('all columns of <=%d values for 9 field types; all layouts of '
            '<=%d fields with all deletion patterns of <=%d records; 4 '
            'sources; every day of 15 years, every logical byte, all whole '
            'numbers of 1, 2 and 4 characters in 3 alignments, powers of two '
            'to 2^62; all pairs of 16 field names; up to 70001 records, 2046 fields, field sizes to 255' % ((3, 3, 4) if tier == 'quick' else (4, 4, 5)))


def tasks(tier):
    q = tier == 'quick'
    ty = sorted(dm.TYPES)
    t = [('values', (3 if q else 4,)), ('domains', ()),
         ('fieldnames', ()), ('streams', ())]
    t += [('bigs', (s, 8, not q)) for s in range(8)]
    t += [('layouts', (1, 5 if q else 8, ty, True, 0, 1))]
    t += [('layouts', (2, 4 if q else 7, ty, True, s, 8)) for s in range(8)]
    t += [('layouts', (3, 3 if q else 5, ty, False, s, 16))
          for s in range(16)]
    if not q:
        t += [('layouts', (4, 4, ty, False, s, 64)) for s in range(64)]
    for a, b in itertools.product(ty if not q else ['c4', 'n3', 'd', 'l'],
                                  repeat=2):
        t += [('pairs', (a, b, 0, 1))]
    return t
