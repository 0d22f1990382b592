"""C16: an xlsx sheet is read the same however its cells are encoded."""
import itertools
import xlsxgen as xg
import gridmodel as gm
from gridmodel import TEXT, NUMBER, DATE, BOOL, ERROR
from core import expect, same

PROP = 'C16'
ASSUMPTIONS = ['valid packages: row and cell addresses agree, an address is '
               'left out only where counting gives it',
               'an empty inline string is no cell']

SST = ['one', '', 'two words', ' sp ', '12']
SSTX = [xg.si(s) for s in SST]
STYLES = xg.stylesxml([(170, 'yyyy-mm-dd'), (171, '0.00')],
                      [0, 14, 170, 171, 22, None])
ERR = {'#NULL!': 0x00, '#DIV/0!': 0x07, '#VALUE!': 0x0F, '#REF!': 0x17,
       '#NAME?': 0x1D, '#NUM!': 0x24, '#N/A': 0x2A}

# name -> (attributes, children, expected or None when it is no cell)
KINDS = {}
for _t in ('0', '1', '-1.5', '1E5', '1e-300', '0.1', '-0',
           '1.7976931348623157E+308', '123456789012345678',
           '4.9406564584124654E-324', '2.5000000000000004'):
    KINDS['n' + _t] = ('', '<v>%s</v>' % _t, (NUMBER, float(_t)))
KINDS.update({
    'nt': (' t="n"', '<v>7</v>', (NUMBER, 7.0)),
    'ns': (' s="3"', '<v>7</v>', (NUMBER, 7.0)),
    'ns5': (' s="5"', '<v>7</v>', (NUMBER, 7.0)),
    'nf': ('', '<f>A1+1</f><v>8</v>', (NUMBER, 8.0)),
    'nf2': ('', '<f t="shared" ref="A1:A2" si="0">A1+1</f><v>9</v>',
            (NUMBER, 9.0)),
    'nvf': ('', '<v>8.5</v><f>A1+1</f>', (NUMBER, 8.5)),
    'd1': (' s="1"', '<v>40000.5</v>', (DATE, 40000.5)),
    'd2': (' s="2"', '<v>1</v>', (DATE, 1.0)),
    'd4': (' t="n" s="4"', '<f>NOW()</f><v>2.25</v>', (DATE, 2.25)),
    'blank': ('', '', None),
    'blanks': (' s="1"', '', None),
    'blankv': ('', '<v/>', None),
    'blanksst': (' t="s"', '', None),
    's0': (' t="s"', '<v>0</v>', (TEXT, 'one')),
    's1': (' t="s"', '<v>1</v>', (TEXT, '')),
    's2': (' t="s" s="1"', '<v>2</v>', (TEXT, 'two words')),
    's3': (' t="s"', '<v>3</v>', (TEXT, ' sp ')),
    's4': (' s="3" t="s"', '<f>x</f><v>4</v>', (TEXT, '12')),
    'str': (' t="str"', '<f>A1</f><v>abc</v>', (TEXT, 'abc')),
    'strn': (' t="str"', '<v>5</v>', (TEXT, '5')),
    'strd': (' t="str" s="1"', '<v>5</v>', (TEXT, '5')),
    'stre': (' t="str"', '<f>A1</f><v></v>', (TEXT, '')),
    'str0': (' t="str"', '<f>A1</f>', (TEXT, '')),
    'in': (' t="inlineStr"', '<is><t>inl</t></is>', (TEXT, 'inl')),
    'inr': (' t="inlineStr"', '<is><r><t>in</t></r><r><rPr><b/></rPr><t>l2'
            '</t></r></is>', (TEXT, 'inl2')),
    'ind': (' t="inlineStr" s="1"', '<is><t>12</t></is>', (TEXT, '12')),
    'b1': (' t="b"', '<v>1</v>', (BOOL, 1)),
    'b0': (' t="b"', '<v>0</v>', (BOOL, 0)),
    'bf': (' t="b" s="1"', '<f>TRUE()</f><v>1</v>', (BOOL, 1)),
    'bt': (' t="b"', '<v>true</v>', (BOOL, 1)),
    'bfa': (' t="b"', '<v>false</v>', (BOOL, 0)),
})
for _e in ERR:
    KINDS['e' + _e] = (' t="e"', '<v>%s</v>' % _e, (ERROR, ERR[_e]))
KINDS['ef'] = (' t="e" s="1"', '<f>1/0</f><v>#DIV/0!</v>', (ERROR, 7))
FEW = ('n1', 's0', 'blank', 'd1', 'b0', 'in', 'str', 'e#N/A')
SOME = FEW + ('s1', 'stre', 'str0', 'n0', 'nf', 'b1', 'd4', 'e#REF!', 'ind',
              'blankv', 'inr', 's3')


def cell(kind, ref):
    a, ch, _ = KINDS[kind]
    r = ' r="%s"' % ref if ref else ''
    return '<c%s%s>%s</c>' % (r, a, ch) if ch else '<c%s%s/>' % (r, a)


def opened(sheets, **kw):
    kw.setdefault('styles', STYLES)
    kw.setdefault('sst', SSTX)
    return gm.open_bytes(xg.package(sheets, **kw))


# -- cell kinds -------------------------------------------------------------

def kinds_case(R, seqs, form):
    """Each row holds one sequence of kinds."""
    rows, grid = [], {}
    for r, seq in enumerate(seqs):
        cells = []
        for c, k in enumerate(seq):
            cells.append(cell(k, xg.addr(r, c) if form != 'counted' else ''))
            if KINDS[k][2] is not None:
                grid[r, c] = KINDS[k][2]
            R.step()
        if form == 'reversed':
            cells = cells[::-1]
        rows.append((' r="%d"' % (r + 1) if form != 'counted' else '', cells))
        R.state((seq, form))
    if form == 'reversed':
        rows = rows[::-1]
    sh = opened([('S', xg.sheetxml(rows))]).sheet_by_index(0)
    gm.check_sheet(sh, grid, 'rows of cells %s' % (
        form if len(seqs) > 3 else '%s %r' % (form, seqs)))
    return form, seqs[0]


def kinds(R, names, n, shard, nshards, batch=100):
    seqs = list(itertools.product(names, repeat=n))[shard::nshards]
    for form in ('plain', 'reversed', 'counted'):
        for i in range(0, len(seqs), batch):
            R.do(kinds_case, seqs[i:i + batch], form)


# -- sparse grids -----------------------------------------------------------

DIMS = (None, 'exact', 'A1', 'large', 'B2:C3', '1:2')


def grid_case(R, pos, nr, nc, rot, opts):
    (roworder, cellorder, emptyrows, emptycells, names, dim, ragged) = opts
    names_ = list(FEW)
    grid, kinds_ = {}, {}
    for i, p in enumerate(pos):
        k = names_[(i + rot) % len(names_)]
        kinds_[p] = k
        if KINDS[k][2] is not None:
            grid[p] = KINDS[k][2]
    rows = []
    prev = -1
    for r in range(nr):
        here = [c for c in range(nc) if (r, c) in kinds_]
        if not here and not emptyrows:
            continue
        cells, pc = [], -1
        for c in range(nc):
            k = kinds_.get((r, c))
            if k is None and not (emptycells and here):
                continue
            ref = xg.addr(r, c)
            if names == 'lower':
                ref = ref.lower()
            elif names == 'abs':
                ref = '$%s$%d' % (xg.letters(c), r + 1)
            elif names == 'minimal' and cellorder == 'in' and c == pc + 1:
                ref = ''
            cells.append(cell(k or 'blank', ref))
            pc = c
        a = ' r="%d"' % (r + 1)
        if names == 'minimal' and roworder == 'in' and r == prev + 1:
            a = ''
        prev = r
        rows.append((a, cells[::-1] if cellorder == 'rev' else cells))
    if roworder == 'rev':
        rows = rows[::-1]
    elif roworder == 'split':
        rows = [(a, [x]) for a, cs in rows for x in cs[::-1]]
    d = dim
    if dim == 'exact':
        d = 'A1:' + xg.addr(nr - 1, nc - 1)
    elif dim == 'large':
        d = 'A1:XFD1048576'
    content = xg.package([('S', xg.sheetxml(rows, d))], SSTX, STYLES)
    sh = gm.open_bytes(content, ragged_rows=ragged).sheet_by_index(0)
    gm.check_sheet(sh, grid, 'cells %r as %r' % (sorted(kinds_.items()),
                                                 opts), ragged)
    R.step()
    R.state((pos, rot, opts))
    return (pos, opts)


OPTS = [o for o in itertools.product(
    ('in', 'rev', 'split'), ('in', 'rev'), (False, True), (False, True),
    ('upper', 'minimal', 'lower', 'abs'), DIMS, (False, True))
    if not (o[4] == 'minimal' and (o[0] == 'split' or o[0] == 'rev' and
                                   o[1] == 'rev'))
    and not (o[0] == 'split' and (o[2] or o[4] != 'upper'))]
OPTS1 = [o for i, o in enumerate(OPTS) if o[6] == (i % 2 == 1)]


def grids(R, nr, nc, shard, nshards, rots, few):
    cells = list(itertools.product(range(nr), range(nc)))
    i = 0
    for n in range(len(cells) + 1):
        for pos in itertools.combinations(cells, n):
            for o in (few or OPTS):
                i += 1
                if i % nshards == shard:
                    for rot in rots:
                        R.do(grid_case, pos, nr, nc, rot, o)


FEWOPTS = [('in', 'in', False, False, 'upper', None, False),
           ('in', 'in', False, False, 'minimal', 'A1', False),
           ('in', 'in', True, True, 'minimal', 'exact', True),
           ('rev', 'rev', False, False, 'upper', 'large', False),
           ('in', 'rev', False, True, 'lower', 'B2:C3', True),
           ('split', 'in', False, False, 'upper', '1:2', False)]


def order_case(R, order, nr, nc, ragged):
    """Cells of a full grid written one by one in any order, each in a row
    element of its own."""
    rows = []
    grid = {}
    for i in order:
        r, c = divmod(i, nc)
        k = FEW[i % len(FEW)]
        rows.append((' r="%d"' % (r + 1), [cell(k, xg.addr(r, c))]))
        if KINDS[k][2]:
            grid[r, c] = KINDS[k][2]
    content = xg.package([('S', xg.sheetxml(rows))], SSTX, STYLES)
    sh = gm.open_bytes(content, ragged_rows=ragged).sheet_by_index(0)
    gm.check_sheet(sh, grid, 'cells in the order %r' % (order,), ragged)
    R.step()
    R.state((order, nr, nc, ragged))
    return order


def orders(R, nr, nc, shard, nshards):
    for i, o in enumerate(itertools.permutations(range(nr * nc))):
        if i % nshards == shard:
            R.do(order_case, o, nr, nc, False)
            R.do(order_case, o, nr, nc, True)


# -- numbering of rows and cells without addresses --------------------------

def count_case(R, rows, cells):
    """rows: for each row its explicit number or None; cells: the same for
    the cells in every row."""
    xml, grid = [], {}
    r = -1
    for i, x in enumerate(rows):
        r = x if x is not None else r + 1
        c = -1
        cs = []
        for j, y in enumerate(cells):
            c = y if y is not None else c + 1
            v = 10 * i + j
            cs.append('<c%s><v>%d</v></c>' % (
                ' r="%s"' % xg.addr(r, c) if y is not None else '', v))
            grid[r, c] = (NUMBER, float(v))
        xml.append((' r="%d"' % (r + 1) if x is not None else '', cs))
    sh = opened([('S', xg.sheetxml(xml))]).sheet_by_index(0)
    gm.check_sheet(sh, grid, 'rows %r cells %r' % (rows, cells))
    R.step()
    R.state((rows, cells))
    return (rows, cells)


def counted(R, n, m, top):
    alpha = (None,) + tuple(range(top))
    for rows in itertools.product(alpha, repeat=n):
        for cells in itertools.product(alpha, repeat=m):
            R.do(count_case, rows, cells)


# -- texts ------------------------------------------------------------------

ALPHA = ('a', ' ', '\n', '_', '\xe9', '\u20ac', '\U0001F600', '&', '<')


def encodings(s):
    """All (xml, text) ways to write a string."""
    yield '<t xml:space="preserve">%s</t>' % xg.esc(s), s
    yield '<t>%s</t>' % xg.esc(s), s.strip(' \n\t\r')
    yield ''.join('<r><t xml:space="preserve">%s</t></r>' % xg.esc(ch)
                  for ch in s), s
    if len(s) > 1:
        yield ('<t xml:space="preserve">%s</t><r><rPr><b/></rPr><t '
               'xml:space="preserve">%s</t></r>' % (xg.esc(s[:1]),
                                                    xg.esc(s[1:])), s)
        yield ('<r><t xml:space="preserve">%s</t></r><rPh sb="0" eb="1"><t>'
               'ph</t></rPh><r><t xml:space="preserve">%s</t></r>'
               '<phoneticPr fontId="1"/>' % (xg.esc(s[:-1]), xg.esc(s[-1:])),
               s)
        yield ('<t>%s</t><t>%s</t>' % (xg.esc(s[:1]), xg.esc(s[1:])),
               s[:1].strip(' \n\t\r') + s[1:].strip(' \n\t\r'))
    yield ('<t xml:space="preserve">%s</t><rPh sb="0" eb="1"><t>ph</t></rPh>'
           % xg.esc(s), s)
    if all(ord(c) < 0x10000 for c in s):
        yield '<t>%s</t>' % ''.join('_x%04X_' % ord(c) for c in s), s
        yield '<t>%s</t>' % ''.join('_x%04x_' % ord(c) for c in s), s
    if ']]>' not in s:
        yield '<t xml:space="preserve"><![CDATA[%s]]></t>' % s, s


LITERAL = [('_x005F_x0041_', '_x0041_'), ('_x0041', '_x0041'),
           ('x0041_', 'x0041_'), ('_x00G1_', '_x00G1_'), ('_X0041_',
                                                          '_X0041_'),
           ('_x000D_\n', '\r\n'), ('a_x000D_b', 'a\rb'), ('_x0009_', '\t'),
           ('__x0042__', '_B_'), ('_x041_', '_x041_'), ('_', '_'),
           ('_x0041_x0042_', 'Ax0042_'), ('_x0041__x0042_', 'AB'),
           ('_x005f_x000d_', '_x000d_'), ('_x005F_x000D_', '_x000D_'),
           ('_x005f_x005f_', '_x005f_'), ('x_x005F_x0009_y', 'x_x0009_y'),
           ('_x005F_x005F_x0041_', '_x005FA'), ('_x005F_x005F_x005F_x0041_',
                                                '_x005F_x0041_'),
           ('_x00e9_', '\xe9'),
           ('_x005F_', '_'), ('_xABCD_', '\uabcd'), ('_xabCD_', '\uabcd')]


def text_case(R, items):
    """items: list of (inner xml of si or is, text).  Each is stored as a
    shared and as an inline string."""
    rows, grid = [], {}
    for r, (x, s) in enumerate(items):
        cells = ['<c r="A%d" t="s"><v>%d</v></c>' % (r + 1, r)]
        cells.append('<c r="B%d" t="inlineStr"><is>%s</is></c>' % (r + 1, x))
        grid[r, 0] = (TEXT, s)
        if s:
            grid[r, 1] = (TEXT, s)
        cells.append('<c r="C%d"><v>1</v></c>' % (r + 1))
        grid[r, 2] = (NUMBER, 1.0)
        R.step(2)
        R.state((x, s))
        rows.append((' r="%d"' % (r + 1), cells))
    content = xg.package([('S', xg.sheetxml(rows))],
                         ['<si>%s</si>' % x for x, _ in items], STYLES)
    gm.check_sheet(gm.open_bytes(content).sheet_by_index(0), grid,
                   'strings%s' % (' %r' % (items,) if len(items) < 3 else ''))
    return items[0]


def strcell_case(R, items):
    rows, grid = [], {}
    for r, (raw, s, pre) in enumerate(items):
        rows.append((' r="%d"' % (r + 1), [
            '<c r="A%d" t="str"><f>x</f><v%s>%s</v></c>' % (
                r + 1, ' xml:space="preserve"' if pre else '', xg.esc(raw))]))
        grid[r, 0] = (TEXT, s)
        R.step()
        R.state((raw, pre))
    content = xg.package([('S', xg.sheetxml(rows))])
    gm.check_sheet(gm.open_bytes(content).sheet_by_index(0), grid,
                   'formula strings')
    return items[0]


def texts(R, n, shard, nshards):
    items = []
    for k in range(n + 1):
        for s in itertools.product(ALPHA, repeat=k):
            items += list(encodings(''.join(s)))
    items += [('<t xml:space="preserve">%s</t>' % xg.esc(a), b)
              for a, b in LITERAL]
    items += [('', ''), ('<r/>', ''), ('<t/>', ''), ('<r><t/></r>', ''),
              ('<r><rPr/><t>x</t></r>', 'x')]
    if shard == 0:
        for x in items[-5 - len(LITERAL):]:
            R.do(text_case, [x])
    items = items[shard::nshards]
    for i in range(0, len(items), 200):
        R.do(text_case, items[i:i + 200])
    st = []
    for k in range(n + 1):
        for s in itertools.product(ALPHA, repeat=k):
            s = ''.join(s)
            st += [(s, s, True), (s, s.strip(' \n\t\r'), False)]
    st += [(a, b, True) for a, b in LITERAL]
    st = st[shard::nshards]
    for i in range(0, len(st), 200):
        R.do(strcell_case, st[i:i + 200])


def sst_case(R, order):
    """Cells refer to shared strings in any order and any number of times."""
    cells = [cell('s%d' % k, xg.addr(0, c)) for c, k in enumerate(order)]
    grid = {(0, c): (TEXT, SST[k]) for c, k in enumerate(order)}
    sh = opened([('S', xg.sheetxml([(' r="1"', cells)]))]).sheet_by_index(0)
    gm.check_sheet(sh, grid, 'shared strings %r' % (order,))
    R.step()
    R.state(('sst', order))
    return order


def ssts(R, n):
    for order in itertools.product(range(len(SST)), repeat=n):
        R.do(sst_case, order)


# -- merged cells -----------------------------------------------------------

def merge_case(R, pos, merges):
    rows = [(' r="%d"' % (r + 1), ['<c r="%s"><v>%d</v></c>' % (
        xg.addr(r, c), 10 * r + c) for rr, c in pos if rr == r])
        for r in sorted(set(r for r, _ in pos))]
    grid = {(r, c): (NUMBER, 10.0 * r + c) for r, c in pos}
    refs = ['%s:%s' % (xg.addr(*a), xg.addr(*b)) for a, b in merges]
    sh = opened([('S', xg.sheetxml(rows, merge=refs))]).sheet_by_index(0)
    nr, nc = gm.dims(grid)
    nr = max([nr] + [b[0] + 1 for a, b in merges])
    nc = max([nc] + [b[1] + 1 for a, b in merges])
    gm.check_sheet(sh, grid, 'cells %r merged %r' % (pos, refs),
                   size=(nr, nc))
    same(sorted(map(tuple, sh.merged_cells)),
         sorted((a[0], b[0] + 1, a[1], b[1] + 1) for a, b in merges),
         'merged cells %r' % refs)
    R.step()
    R.state((pos, merges))
    return (pos, merges)


def merging(R):
    cells = list(itertools.product(range(2), range(2)))
    areas = [(a, b) for a in itertools.product(range(3), range(3))
             for b in itertools.product(range(3), range(3))
             if b[0] >= a[0] and b[1] >= a[1] and a != b]
    for n in range(1, 4):
        for pos in itertools.combinations(cells, n):
            for a in areas:
                R.do(merge_case, pos, (a,))
    for a in areas:
        R.do(merge_case, ((0, 0),), (a, ((3, 3), (3, 4))))


# -- packages ---------------------------------------------------------------

REL = '<Relationships xmlns="%s">%s</Relationships>'
COMMENTS = ('<comments xmlns="%s"><authors><author>me</author></authors>'
            '<commentList><comment ref="B2" authorId="0"><text><t>n1</t>'
            '</text></comment></commentList></comments>' % xg.NS)


def package_case(R, opts):
    (case, absolute, slashes, order, store, hidden, others, comments, ids,
     sstname, date) = opts
    A = [(' r="1"', [cell('s0', 'A1'), cell('d1', 'B1')]),
         (' r="2"', [cell('n1', 'A2')])]
    B = [(' r="3"', [cell('in', 'C3')])]
    C = [(' r="1"', [cell('b1', 'B1')])]
    grids_ = [{(0, 0): (TEXT, 'one'), (0, 1): (DATE, 40000.5),
               (1, 0): (NUMBER, 1.0)}, {(2, 2): (TEXT, 'inl')},
              {(0, 1): (BOOL, 1)}]
    names = ['A & <B>', 'l\xe5da', 'x y']
    parts = []
    if comments:
        fn = 'Sheet1.xml' if case else 'sheet1.xml'
        tgt = '../Comments1.xml' if case else '../comments1.xml'
        parts = [('xl/worksheets/_rels/%s.rels' % fn,
                  xg.rels([('r1', 'comments', tgt), ('r2', 'hyperlink',
                                                     'x.html')])),
                 ('xl/' + tgt[3:], COMMENTS)]
    kw = dict(sst=SSTX, styles=STYLES, date1904=date, store=store,
              case=case, absolute=absolute, sheetids=ids, parts=parts,
              order=order, slashes=slashes, sstname=sstname,
              states=(None, 'hidden', 'veryHidden') if hidden else None,
              others=others)
    content = xg.package(list(zip(names, map(xg.sheetxml, (A, B, C)))), **kw)
    wb = gm.open_bytes(content)
    same(wb.sheet_names(), names, 'sheet names %r' % (opts,))
    same(wb.datemode, 1 if date in ('1', 'true') else 0,
         'date system %r' % (opts,))
    for i in range(3):
        gm.check_sheet(wb.sheet_by_index(i), grids_[i],
                       'sheet %d of package %r' % (i, opts))
        expect(wb.sheet_by_name(names[i]) is wb.sheet_by_index(i),
               'sheet by name %r', names[i])
    if comments:
        m = wb.sheet_by_index(0).cell_note_map
        same(sorted((k, v.text, v.author) for k, v in m.items()),
             [((1, 1), 'n1', 'me')], 'comments of package %r' % (opts,))
    R.step()
    R.state(opts)
    return opts


CHART = (((1, 'Chart', 'chartsheet', '<chartsheet xmlns="%s"/>' % xg.NS),),
         ((0, 'Macro', 'dialogsheet', '<dialogsheet xmlns="%s"/>' % xg.NS),
          (2, 'Chart', 'chartsheet', '<chartsheet xmlns="%s"/>' % xg.NS)))


def packages(R, case, absolute):
    for rest in itertools.product(
            (False, True), (None, 'reversed'), (True, False), (False, True),
            ((),) + CHART, (False, True), (None, (3, 7, 1)),
            ('xl/sharedStrings.xml', 'sharedStrings.xml'),
            (None, '0', '1', 'true', 'false')):
        R.do(package_case, (case, absolute) + rest)


def target_case(R, targets):
    """Where the sheets lie in the package."""
    sheets = [('S%d' % i, xg.sheetxml([(' r="1"', [
        '<c r="A1"><v>%d</v></c>' % (i + 5)])]))
        for i in range(len(targets))]
    wb = gm.open_bytes(xg.package(sheets, SSTX, STYLES, targets=targets))
    for i in range(len(targets)):
        gm.check_sheet(wb.sheet_by_name('S%d' % i),
                       {(0, 0): (NUMBER, i + 5.0)},
                       'sheet %d of parts %r' % (i, targets))
    R.step()
    R.state(targets)


def targets(R):
    every = []
    for d in ('worksheets/', '', 'l/', 'xl/', 'sheets/deep/', 'x.y/',
              'Work Sheets/', 'worksheets/worksheets/'):
        for f in ('sheet1.xml', 'Sheet1.XML', 'x.xml', 'l.xml', 'a%20b.xml',
                  'a b.xml', 'a&b.xml', 'sheet', 'sheet1.xml.xml',
                  '\xe5.xml', 'sheet010.xml', "it's.xml", '1'):
            every += [(d + f, 'xl/' + d + f), ('/xl/' + d + f, 'xl/' + d + f),
                      ('/' + d + f, d + f),
                      ((d + f).replace('/', '\\'), 'xl/' + d + f)]
    every = [x for x in every if not x[1].lower().startswith('/')]
    for t in every:
        R.do(target_case, (t,))
        for o in (('worksheets/sheet2.xml', 'xl/worksheets/sheet2.xml'),
                  ('/xl/xx.xml', 'xl/xx.xml')):
            R.do(target_case, (t, o))
            R.do(target_case, (o, t))


def bare_case(R, styles, sst):
    """Packages without styles or shared strings."""
    rows = [(' r="1"', [cell('n1', 'A1'), cell('in', 'B1')])]
    content = xg.package([('S', xg.sheetxml(rows))],
                         SSTX if sst else None, STYLES if styles else None)
    gm.check_sheet(gm.open_bytes(content).sheet_by_index(0),
                   {(0, 0): (NUMBER, 1.0), (0, 1): (TEXT, 'inl')},
                   'styles %s strings %s' % (styles, sst))
    R.step()
    R.state((styles, sst))
    return (styles, sst)


def bare(R):
    for a in (False, True):
        for b in (False, True):
            R.do(bare_case, a, b)


# -- large sheets -----------------------------------------------------------

def all_columns_case(R, rev, nr):
    """A row with a cell in every column there is."""
    cells = ['<c r="%s"><v>%d</v></c>' % (xg.addr(nr, c), c)
             for c in range(16384)]
    if rev:
        cells = cells[::-1]
    sh = opened([('S', xg.sheetxml([(' r="%d"' % (nr + 1), cells)]))]
                ).sheet_by_index(0)
    gm.check_sheet(sh, {(nr, c): (NUMBER, float(c)) for c in range(16384)},
                   'a row of all columns')
    R.step(16384)
    R.state(('columns', rev, nr))
    return rev, nr


def far_case(R, r, c, ref, ragged):
    """One cell far out, with or without addresses on the row and cell."""
    xml = []
    if ref == 'next':           # counted from the row and cell before it
        xml.append((' r="%d"' % r, []))
        row = ('', ['<c r="%s"/>' % xg.addr(r, c - 1),
                    '<c><v>5</v></c>'])
    elif ref == 'cell':         # an address on the cell, counted row
        xml.append((' r="%d"' % r, ['<c r="%s"/>' % xg.addr(r - 1, 0)]))
        row = ('', ['<c r="%s"><v>5</v></c>' % xg.addr(r, c)])
    else:
        row = (' r="%d"' % (r + 1),
               ['<c r="%s"><v>5</v></c>' % xg.addr(r, c)])
    xml.append(row)
    bk = gm.open_bytes(xg.package([('S', xg.sheetxml(xml))], SSTX, STYLES),
                       ragged_rows=ragged)
    sh = bk.sheet_by_index(0)
    what = 'one cell at %s' % xg.addr(r, c)
    same((sh.nrows, sh.ncols), (r + 1, c + 1), what + ': dimensions')
    same(sh.row_values(r), [''] * c + [5.0], what + ': row')
    same(list(sh.row_types(r)), [0] * c + [2], what + ': types')
    for x in (0, r // 2, r - 1):
        if 0 <= x < r:
            same(sh.row_values(x), [] if ragged else [''] * (c + 1),
                 what + ': row %d' % x)
    R.step()
    R.state(('far', r, c, ref, ragged))
    return r, c, ref


ROWEDGES = (1, 9, 10, 99, 100, 254, 255, 256, 999, 1000, 9999, 10000, 32767,
            32768, 65534, 65535, 65536, 99999, 100000)
COLEDGES = (1, 25, 26, 27, 51, 52, 255, 256, 675, 676, 701, 702, 703, 727,
            728, 1377, 1378, 2027, 2028, 2730, 16382, 16383)


def far(R, refs):
    for ref in refs:
        for c in COLEDGES:
            for r in (1, 2, 9, 10):
                R.do(far_case, r, c, ref, False)
                R.do(far_case, r, c, ref, True)
        for r in ROWEDGES:
            for c in (1, 26):
                R.do(far_case, r, c, ref, True)
                if c * r < 200000:
                    R.do(far_case, r, c, ref, False)


def last(R):
    R.do(far_case, 1048575, 1, '', True)
    R.do(far_case, 1048575, 16383, 'next', True)
    R.do(far_case, 999999, 2, '', True)
    for rev in (False, True):
        for nr in (0, 3):
            R.do(all_columns_case, rev, nr)


def empties_case(R, seq):
    """seq: rows, each (number or None, holds a cell)."""
    xml, grid, r = [], {}, -1
    for i, (x, full) in enumerate(seq):
        r = r + 1 if x is None else x
        xml.append((' r="%d"' % (r + 1) if x is not None else '',
                    ['<c><v>%d</v></c>' % i] if full else []))
        if full:
            grid[r] = float(i)
    bk = gm.open_bytes(xg.package([('S', xg.sheetxml(xml))]),
                       ragged_rows=True)
    sh = bk.sheet_by_index(0)
    what = 'rows %r' % (seq,)
    same(sh.nrows, max(grid, default=-1) + 1, what + ': rows')
    for r in range(sh.nrows):
        if r in grid or r < 3 or r > sh.nrows - 5:
            same(sh.row_values(r), [grid[r]] if r in grid else [],
                 what + ': row %d' % r)
    R.step()
    R.state(('empties', seq))
    return seq


def empties(R, top):
    alpha = [(x, f) for x in (None, top, top + 2) for f in (False, True)]
    for n in (1, 2, 3):
        for seq in itertools.product(alpha, repeat=n):
            at, ok, got = -1, True, set()
            for x, f in seq:        # rows in order, each once
                at = at + 1 if x is None else x
                ok = ok and at not in got
                got.add(at)
            if ok:
                R.do(empties_case, seq)


def bigsst_case(R, n, how):
    """A table of n shared strings; cells at every edge of the index."""
    if how == 'different':
        txt = ['s%d' % i for i in range(n)]
    elif how == 'repeated':
        txt = ['s%d' % (i % 7) for i in range(n)]
    else:
        txt = ['' if i % 2 else 's%d' % i for i in range(n)]
    idx = sorted(set(x for k in range(0, 18) for x in (
        2 ** k - 1, 2 ** k, 2 ** k + 1) if x < n) |
        {0, n // 2, n - 3, n - 2, n - 1} |
        set(x for x in (999, 1000, 1001, 9999, 10000, 10001, 99999, 100000)
            if x < n))
    idx = idx[::-1]
    cells = ['<c r="%s" t="s"><v>%d</v></c>' % (xg.addr(0, c), i)
             for c, i in enumerate(idx)]
    grid = {(0, c): (TEXT, txt[i]) for c, i in enumerate(idx)}
    sh = opened([('S', xg.sheetxml([(' r="1"', cells)]))],
                sst=[xg.si(x) for x in txt]).sheet_by_index(0)
    gm.check_sheet(sh, grid, 'table of %d shared strings (%s)' % (n, how))
    R.step(len(idx))
    R.state(('bigsst', n, how))
    return n, how


def bigsst(R, n):
    for how in ('different', 'repeated', 'empty'):
        R.do(bigsst_case, n, how)


# -- attributes that do not matter ------------------------------------------

CATTR = (' cm="1"', ' vm="1"', ' ph="1"', ' cm="0" vm="2" ph="0"',
         ' xml:space="preserve"', ' xmlns:x="urn:x" x:r="C9"',
         ' xmlns:x="urn:x" x:t="s" x:s="1"')
RATTR = (' spans="1:1"', ' spans="2:900 1000:1001"', ' s="1"',
         ' s="1" customFormat="1"', ' ht="15" customHeight="1"',
         ' hidden="1"', ' outlineLevel="3" collapsed="1"',
         ' thickTop="1" thickBot="1" ph="1"', ' xmlns:x="urn:x" x:r="7"',
         ' xmlns:x="urn:x" x:dyDescent="0.25"')


def attr_case(R, cattr, rattr, gap):
    names = list(KINDS)
    rows, grid = [], {}
    for r in range(2):
        cells = []
        for c, k in enumerate(names):
            a, ch, v = KINDS[k]
            cells.append('<c%s r="%s"%s>%s</c>' % (
                cattr, xg.addr(r, c), a, ch) if r else
                '<c r="%s"%s%s>%s</c>' % (xg.addr(r, c), a, cattr, ch))
            cells.append(gap)
            if v is not None:
                grid[r, c] = v
        rows.append((rattr + ' r="%d"' % (r + 1) if r else
                     ' r="1"' + rattr, cells))
    sh = opened([('S', xg.sheetxml(rows))]).sheet_by_index(0)
    gm.check_sheet(sh, grid, 'attributes %r of cells, %r of rows, %r' % (
        cattr, rattr, gap))
    R.step(len(grid))
    R.state(('attr', cattr, rattr, gap))
    return cattr, rattr, gap


def attrs(R):
    for cattr in ('',) + CATTR:
        for rattr in ('',) + RATTR:
            for gap in ('', '\n  ', '<!-- c -->', '<?pi x?>'):
                R.do(attr_case, cattr, rattr, gap)


def bounds(tier):
    q = tier == 'quick'
    return ('all subsets of a %s grid x %d encodings; all orders of the cells '
            'of a 2x3 grid; all sequences of %d of %d cell kinds and of %d '
            'of 8; all row and cell numberings with 2 rows and 3 cells; all '
            'strings of <=%d characters over 9 x 10 encodings; all package '
            'layouts; all merged areas in 3x3; all columns to XFD and rows at '
            'every edge to 1048576; tables of up to 100003 shared strings; '
            'all cell kinds with %d cell and %d row attributes' % (
                '2x3' if q else '3x3', len(OPTS1 if q else OPTS), 2, len(KINDS),
                4 if q else 5, 2 if q else 3, len(CATTR), len(RATTR)))


def tasks(tier):
    q = tier == 'quick'
    t = [('bare', ()), ('merging', ()), ('ssts', (3,))]
    t += [('attrs', ()), ('last', ()), ('targets', ())]
    t += [('far', (x,)) for x in (('',), ('next',), ('cell',))]
    t += [('empties', (x,)) for x in (8, 254, 65534)]
    t += [('bigsst', (x,)) for x in (33000, 66000, 100003)]
    t += [('kinds', (tuple(KINDS), n, 0, 1)) for n in (1, 2)]
    t += [('kinds', (tuple(KINDS), 1, 0, 1, 1))]
    t += [('kinds', (SOME, 3, s, 4)) for s in range(4)]
    t += [('kinds', (FEW, 4, s, 2)) for s in range(2)]
    t += [('counted', (2, 3, 3)), ('counted', (3, 1, 4)),
          ('counted', (1, 4, 4)), ('counted', (3, 2, 3))]
    t += [('texts', (2, s, 2)) for s in range(2)]
    t += [('packages', (c, a)) for c in (None, 'upper', 'mixed', 'lower')
          for a in (False, True)]
    t += [('orders', (2, 3, s, 2)) for s in range(2)]
    if q:
        t += [('grids', (2, 3, s, 16, (0, 3), OPTS1)) for s in range(16)]
        t += [('grids', (3, 3, s, 4, (1,), FEWOPTS)) for s in range(4)]
    else:
        t += [('grids', (2, 3, s, 16, range(8), None)) for s in range(16)]
        t += [('grids', (3, 3, s, 64, (0, 5), None)) for s in range(64)]
        t += [('kinds', (FEW, 5, s, 8)) for s in range(8)]
        t += [('kinds', (tuple(KINDS), 3, s, 16)) for s in range(16)]
        t += [('texts', (3, s, 8)) for s in range(8)]
        t += [('counted', (3, 3, 3))]
        t += [('orders', (2, 4, s, 32)) for s in range(32)]
    return t
