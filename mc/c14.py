"""C14: a sheet range is mapped to channels by its cell addresses."""
import itertools
from channelpack import readxl
import xlsxgen as xg
import xlsgen as g
import textmodel as tm
import packmodel as pm
from core import expect, same

PROP = 'C14'
ASSUMPTIONS = ['ranges inside the sheet; header cells hold text; header '
               'addresses name the first column of the range']


def value(style, r, c):
    """Content of a cell: None missing, str text, float number."""
    if style == 'text':
        return 'r%dc%d' % (r, c)
    if style == 'nums':
        return 100.0 * r + c + 0.5
    if style == 'head':             # a header row on top
        return 'h%d' % c if r == 0 else 100.0 * r + c + 0.5
    if style == 'sparse':           # cells only in every third place
        return 100.0 * r + c + 0.5 if (r + c) % 3 == 2 else None
    raise KeyError(style)


def grid(style, nr, nc):
    return {(r, c): value(style, r, c) for r in range(nr) for c in range(nc)
            if value(style, r, c) is not None}


def xls_body(gr):
    return b''.join(g.label(r, c, 0, v) if isinstance(v, str) else
                    g.number(r, c, 0, v) for (r, c), v in sorted(gr.items()))


def xlsx_sheet(gr):
    rows = []
    for (r, c), v in sorted(gr.items()):
        a = ' r="%d"' % (r + 1)
        if not rows or rows[-1][0] != a:
            rows.append((a, []))
        rows[-1][1].append(
            '<c r="%s" t="inlineStr"><is>%s</is></c>' % (xg.addr(r, c),
                                                         xg.t(v))
            if isinstance(v, str) else
            '<c r="%s"><v>%r</v></c>' % (xg.addr(r, c), v))
    return xg.sheetxml(rows)


def content(kind, sheets):
    if kind == 'xls':
        return g.simple_doc(g.workbook([(n, xls_body(x))
                                        for n, x in sheets]))
    return xg.package([(n, xlsx_sheet(x)) for n, x in sheets])


def dims(gr):
    return max(r for r, _ in gr) + 1, max(c for _, c in gr) + 1


def column(gr, c, a, b):
    vals = [gr.get((r, c)) for r in range(a, b + 1)]
    if all(v is None or isinstance(v, float) for v in vals):
        return [pm.NAN if v is None else v for v in vals]
    if all(v is None or isinstance(v, str) for v in vals):
        return ['' if v is None else v for v in vals]
    return vals


def want(gr, start, stop, header, cols):
    """Expected (channels, names) or ValueError."""
    nr, nc = dims(gr)
    r0, c0 = start or (0, 0)
    r1, c1 = stop or (nr - 1, nc - 1)
    cols = list(range(c0, c1 + 1)) if cols is None else cols
    if min(cols) < c0 or max(cols) > c1:
        return ValueError
    names = {}
    if header is True:
        names = {c: gr.get((r0, c), '') for c in cols}
        r0 += 1
    elif header is not False:
        names = {c: gr.get((header, c), '') for c in cols}
    return {c: column(gr, c, r0, r1) for c in cols}, names


def text_of(cols, form):
    """A column-selection string for a set of columns."""
    L = [xg.letters(c) for c in cols]
    if form == 'list':
        return ','.join(L)
    if form == 'lower':
        return ' , '.join(reversed(L)).lower()
    if form == 'ranges':
        out, i = [], 0
        cs = sorted(cols)
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            out.append('%s:%s' % (xg.letters(cs[i]), xg.letters(cs[j])))
            i = j + 1
        return ', '.join(out)
    raise KeyError(form)


def range_case(R, path, kind, gr, start, stop, header, cols, form, sheet=0,
               case='upper'):
    f = str.lower if case == 'lower' else str
    kw = {'sheet': sheet}
    if start is not None:
        kw['startcell'] = f(xg.addr(*start))
        if case == 'letters':
            kw['startcell'] = xg.letters(start[1])
    if stop is not None:
        kw['stopcell'] = f(xg.addr(*stop))
    if header is True or header is False:
        kw['header'] = header
    else:
        kw['header'] = f(xg.addr(header, (start or (0, 0))[1]))
    if form == 'nums':
        kw['usecols'] = list(cols)
    elif form == 'rev':
        kw['usecols'] = tuple(reversed(cols))
    elif form == 'iter':
        kw['usecols'] = iter(cols)
    elif form is not None:
        kw['usecols'] = text_of(cols, form)
    what = '%s %s' % (kind, kw)
    w = want(gr, start, stop, header, cols)
    R.step()
    R.state((kind, sorted(gr), start, stop, header, cols, form))
    try:
        pack = readxl.sheetpack(path, **kw)
    except ValueError:
        expect(w is ValueError, '%s: ValueError', what)
        return 'error'
    expect(w is not ValueError, '%s: columns outside the range accepted: %r',
           what, sorted(pack.data))
    chans, names = w
    same(sorted(pack.data), sorted(chans), what + ': keys')
    for c in chans:
        same(pm.nlist(pack(c)), chans[c], what + ': channel %d' % c)
        if chans[c] and all(isinstance(v, float) for v in chans[c]):
            expect(pack(c).dtype.kind == 'f', '%s: channel %d has dtype %s',
                   what, c, pack(c).dtype)
    same(dict(pack.names), names, what + ': names')
    same(pack.fn, path, what + ': fn')
    same(pack.mask.tolist(), [True] * len(next(iter(chans.values()))),
         what + ': mask')
    return (sorted(chans), len(names))


def subsets(cols):
    cols = list(cols)
    for n in range(1, len(cols) + 1):
        yield from itertools.combinations(cols, n)


FORMS = ('nums', 'rev', 'iter', 'list', 'lower', 'ranges')


def ranges(R, kind, style, nr, nc, cols, shard, nshards):
    gr = grid(style, nr, nc)
    nr, nc = dims(gr)
    path = tm.put(content(kind, [('S', gr)]))
    cells = list(itertools.product(range(nr), range(nc)))
    i = 0
    try:
        for start in [None] + cells:
            r0, c0 = start or (0, 0)
            for stop in [None] + cells:
                r1, c1 = stop or (nr - 1, nc - 1)
                if r1 < r0 or c1 < c0:
                    continue
                i += 1
                if i % nshards != shard:
                    continue
                hs = [False]
                if all(isinstance(gr.get((r0, c), ''), str)
                       for c in range(nc)):
                    hs.append(True)
                hs += [h for h in range(nr) if all(
                    isinstance(gr.get((h, c), ''), str) for c in range(nc))]
                for header in hs:
                    R.do(range_case, path, kind, gr, start, stop, header,
                         None, None)
                    R.do(range_case, path, kind, gr, start, stop, header,
                         None, None, 0, 'lower')
                    if r0 == 0 and start and header is False or \
                            header is True and r0 == 0 and start:
                        R.do(range_case, path, kind, gr, start, stop, header,
                             None, None, 0, 'letters')
                    if not cols:
                        continue
                    for cs in subsets(range(nc)):
                        forms = FORMS if len(cs) > 1 and cols == 'all' else (
                            'nums', 'ranges')
                        for form in forms:
                            R.do(range_case, path, kind, gr, start, stop,
                                 header, cs, form)
    finally:
        tm.cleanup()


NAMES = ('First', '1', 'l\xe5da', '0')


def sheets(R, kind):
    grs = [grid('text', 2, 2), grid('nums', 3, 2), grid('head', 2, 3),
           grid('sparse', 4, 4)]
    path = tm.put(content(kind, list(zip(NAMES, grs))))
    try:
        for i, n in enumerate(NAMES):
            for sheet in (i, n):
                for header in (True, False):
                    if header is True and i in (1, 3):
                        continue
                    for start in (None, (0, 1), (1, 0), (0, 0)):
                        if header is True and i == 2 and start == (1, 0):
                            continue
                        R.do(range_case, path, kind, grs[i], start, None,
                             header, None, None, sheet)
        for sheet in ('Second', 4, 17, 'first', ''):
            R.do(nosheet_case, path, kind, sheet)
    finally:
        tm.cleanup()


def nosheet_case(R, path, kind, sheet):
    R.step()
    R.state((kind, 'no sheet', sheet))
    try:
        pack = readxl.sheetpack(path, sheet=sheet)
    except Exception as e:
        return type(e).__name__
    expect(False, '%s: sheet %r does not exist but gives %r', kind, sheet,
           pack)


def outside_case(R, path, kind, gr, cols, form, start, stop):
    kw = {'usecols': list(cols) if form == 'nums' else text_of(cols, form)}
    if start:
        kw['startcell'] = xg.addr(*start)
    if stop:
        kw['stopcell'] = xg.addr(*stop)
    R.step()
    R.state((kind, 'outside', cols, form, start, stop))
    try:
        pack = readxl.sheetpack(path, header=False, **kw)
    except ValueError:
        return 'ValueError'
    expect(False, '%s: %r outside of the range gives columns %r', kind, kw,
           sorted(pack.data))


def outside(R, kind):
    gr = grid('text', 3, 4)
    path = tm.put(content(kind, [('S', gr)]))
    try:
        for c0, c1 in itertools.combinations_with_replacement(range(4), 2):
            for cs in subsets(range(6)):
                if min(cs) >= c0 and max(cs) <= c1:
                    continue
                for form in ('nums', 'ranges', 'list'):
                    R.do(outside_case, path, kind, gr, cs, form, (1, c0),
                         (2, c1))
                    if c1 == 3:
                        R.do(outside_case, path, kind, gr, cs, form, (0, c0),
                             None)
                    if c0 == 0:
                        R.do(outside_case, path, kind, gr, cs, form, None,
                             (1, c1))
    finally:
        tm.cleanup()


def big(R, kind, n):
    """Addresses with more than one digit and letter."""
    gr = {(r, c): value('head', r, c) for r in range(n)
          for c in (0, 1, 25, 26, 27, 28)}
    path = tm.put(content(kind, [('S', gr)]))
    try:
        for r0 in (0, 8, 9, 10):
            for r1 in (9, 10, 11, n - 1):
                for c0 in (25, 26, 27):
                    for c1 in (26, 27, 28):
                        if r1 < r0 or c1 < c0:
                            continue
                        for h in (False, 0):
                            R.do(range_case, path, kind, gr, (r0, c0),
                                 (r1, c1), h, None, None)
                            R.do(range_case, path, kind, gr, (r0, c0),
                                 (r1, c1), h, (c1,), 'list')
    finally:
        tm.cleanup()


EDGES = {'xls': (0, 1, 24, 25, 26, 27, 51, 52, 126, 127, 128, 253, 254, 255),
         'xlsx': (0, 1, 24, 25, 26, 27, 51, 52, 127, 128, 255, 256, 257,
                  700, 701, 702, 703)}


def wide(R, kind, shard, nshards):
    """All pairs of columns next to the places where the text of a column
    changes its length or order, as ranges and as single columns."""
    ed = EDGES[kind]
    gr = {(r, c): value('head', r, c) for r in range(2)
          for c in range(ed[-1] + 1)}
    path = tm.put(content(kind, [('S', gr)]))
    try:
        for i, (a, b) in enumerate(
                itertools.combinations_with_replacement(ed, 2)):
            if i % nshards != shard:
                continue
            cs = tuple(range(a, b + 1))
            R.do(range_case, path, kind, gr, None, None, True, cs, 'ranges')
            if a == b:
                continue
            R.do(range_case, path, kind, gr, (1, a), (1, b), 0, None, None)
            if ed.index(b) != ed.index(a) + 1 and R.tier == 'quick':
                continue
            for form in ('list', 'lower', 'nums', 'rev'):
                R.do(range_case, path, kind, gr, None, None, True, (a, b),
                     form)
            R.do(range_case, path, kind, gr, (0, a), None, True, (a, b),
                 'ranges', 0, 'lower')
    finally:
        tm.cleanup()


def far(R, kind, nr, nc):
    """The last rows and columns a file of the kind can have."""
    gr = {(r, c): value('head', r, c) for r in (0, 1, nr - 2, nr - 1)
          for c in (0, 1, nc - 2, nc - 1)}
    path = tm.put(content(kind, [('S', gr)]))
    try:
        ends = ((0, 0), (1, nc - 2), (nr - 2, nc - 1), (nr - 1, nc - 2),
                (nr - 1, nc - 1))
        for start in (None,) + ends:
            for stop in (None,) + ends:
                a, b = start or (0, 0), stop or (nr - 1, nc - 1)
                if b[0] < a[0] or b[1] < a[1] or \
                        (b[0] - a[0]) * (b[1] - a[1]) > 200000:
                    continue
                R.do(range_case, path, kind, gr, start, stop, 0, None, None)
                R.do(range_case, path, kind, gr, start, stop, False, (b[1],),
                     'list')
    finally:
        tm.cleanup()


def long(R, kind, n, shard, nshards):
    """Start and stop rows on both sides of powers of two, and many rows."""
    gr = {(r, 0): value('head', r, 0) for r in range(n)}
    path = tm.put(content(kind, [('S', gr)]))
    rows = [0, 1, 9, 99, 254, 255, 256, 998, 999, 1000, 9998, 9999, 32767,
            32768, 65534, 65535, 65536, n - 2, n - 1]
    rows = sorted(set(r for r in rows if r < n))
    try:
        i = 0
        for a in [None] + rows:
            for b in [None] + rows:
                if (b if b is not None else n) < (a or 0):
                    continue
                i += 1
                if i % nshards != shard:
                    continue
                R.do(long_case, path, kind, n, a, b)
    finally:
        tm.cleanup()


def longest(R, kind, n):
    path = tm.put(content(kind, [('S', {(r, 0): value('head', r, 0)
                                        for r in range(n)})]))
    try:
        for a, b in ((None, None), (32767, 32768), (65534, 65535),
                     (n - 2, None), (1, n - 1)):
            R.do(long_case, path, kind, n, a, b)
    finally:
        tm.cleanup()


def long_case(R, path, kind, n, a, b):
    kw = {'header': 'A1'}
    if a is not None:
        kw['startcell'] = 'A%d' % (a + 1)
    if b is not None:
        kw['stopcell'] = 'A%d' % (b + 1)
    lo, hi = a or 0, n - 1 if b is None else b
    want = [value('head', r, 0) for r in range(lo, hi + 1)]
    R.step()
    R.state((kind, 'long', n, a, b))
    pack = readxl.sheetpack(path, **kw)
    what = '%s of %d rows, %s' % (kind, n, kw)
    same(sorted(pack.data), [0], what + ': keys')
    got = pack(0).tolist()
    expect(len(got) == len(want), '%s: %d rows, want %d', what, len(got),
           len(want))
    for i, (x, y) in enumerate(zip(got, want)):
        expect(x == y, '%s: record %d is %r, want %r', what, i, x, y)
    same(dict(pack.names), {0: 'h0'}, what + ': names')
    return kind, n, a, b


HEADS = (' a', 'a ', 'a', 'A', '  ', 'a  b', '\ta', 'a\nb', '1', '1.5', '-',
         'l\xe5da', '\u4e2d', 'n' * 255, 'n' * 256, 'n' * 999, 'A1', 'a:b',
         'a,b', "'a'", '"', 'None', 'nan', 'True', '\xa0a\xa0')


def heads(R, kind):
    """Header texts are taken as they are."""
    gr = {(0, c): h for c, h in enumerate(HEADS)}
    gr.update({(1, c): c + 0.5 for c in range(len(HEADS))})
    gr.update({(2, c): h + h[:1] for c, h in enumerate(HEADS)})
    path = tm.put(content(kind, [('S', gr)]))
    try:
        for h in (True, 0, 2):
            for stop in (None, (1, len(HEADS) - 1), (2, len(HEADS) - 1)):
                R.do(range_case, path, kind, gr, None, stop, h, None, None)
            for c in range(len(HEADS)):
                for form in ('list', 'nums'):
                    R.do(range_case, path, kind, gr, None, None, h, (c,),
                         form)
    finally:
        tm.cleanup()


SHEETNAMES = ('A', ' A', 'A ', ' A ', 'A.', 'AA', 'A A', 'A  A', '1', ' 1',
              '01', '1.0', '-1', '0', '2', 'True', 'None', 'l\xe5da',
              'la\u030ada', '\u4e2d', 'n' * 30, 'n' * 31, "'A'", 'A1')


def sheetnames(R, kind):
    """Many sheets with names that are nearly the same."""
    grs = [{(0, 0): 'x%d' % i, (1, 0): i + 0.5}
           for i in range(len(SHEETNAMES))]
    path = tm.put(content(kind, list(zip(SHEETNAMES, grs))))
    try:
        for i, n in enumerate(SHEETNAMES):
            for sheet in (i, n):
                for h in (True, False):
                    R.do(range_case, path, kind, grs[i], None, None, h, None,
                         None, sheet)
        for n in ('a', 'A  ', 'AAA', '3', 'B', '1.', 'n' * 32, 'n' * 29,
                  len(SHEETNAMES), len(SHEETNAMES) + 1, 256, 65536):
            R.do(nosheet_case, path, kind, n)
    finally:
        tm.cleanup()


def bounds(tier):
    return ('all start/stop cells, headers and column subsets in up to 6 '
            'forms on sheets of up to %s, 4 fillings, xls and xlsx; 4 sheets '
            'by index and name; all column sets outside a range; all pairs '
            'of columns at the edges of the letters up to column 704, rows '
            'at the edges up to row 70001, the last row and column; %d '
            'header texts, %d sheet names' % (
                '3x4' if tier == 'quick' else '4x5', len(HEADS),
                len(SHEETNAMES)))


def tasks(tier):
    q = tier == 'quick'
    t = []
    for kind in ('xls', 'xlsx'):
        t += [('sheets', (kind,)), ('outside', (kind,)), ('big', (kind, 13)),
              ('heads', (kind,)), ('sheetnames', (kind,))]
        t += [('wide', (kind, s, 8)) for s in range(8)]
        t += [('long', (kind, 1003, s, 2)) for s in range(2)]
        n = 65536 if kind == 'xls' else 70001
        if q:
            t += [('longest', (kind, n))]
        else:
            t += [('long', (kind, n, s, 16)) for s in range(16)]
    t += [('far', ('xls', 6001, 256)), ('far', ('xlsx', 5, 16384))]
    for kind in ('xls', 'xlsx'):
        for style in ('text', 'nums', 'head', 'sparse'):
            for nr, nc in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2)):
                if style == 'sparse' and nr * nc < 6:
                    continue
                t += [('ranges', (kind, style, nr, nc, 'all', 0, 1))]
            t += [('ranges', (kind, style, 3, 3, 'all', s, 4))
                  for s in range(4)]
            t += [('ranges', (kind, style, 4, 4, '', s, 2))
                  for s in range(2)]
            t += [('ranges', (kind, style, 3, 4, 'some', s, 8))
                  for s in range(8)]
            if not q:
                t += [('ranges', (kind, style, 4, 4, 'all', s, 16))
                      for s in range(16)]
                t += [('ranges', (kind, style, 4, 5, 'some', s, 16))
                      for s in range(16)]
    return t
