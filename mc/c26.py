"""C26: opening options do not change the cells that are read."""
import io
import itertools
import os
import shutil
import tempfile
import struct
import xlsgen as g
import xlsxgen as xg
import gridmodel as gm
from gridmodel import TEXT, NUMBER, DATE, BOOL, ERROR, BLANK
from channelpack import xlrd
from core import Mismatch, expect, same

PROP = 'C26'
ASSUMPTIONS = ['formatting information is available for xls only',
               'sheets are unloaded from an xls opened on demand; elsewhere '
               'loading again what was unloaded may be refused']

NAMES = ['First', 'S\xe5cond', '3rd']
SST = ['shared', 'tv\xe5 \u1234']

# what each sheet holds; blanks are there only with formatting information
GRIDS = [
    {(0, 0): (NUMBER, 1.5), (0, 2): (TEXT, 'shared'), (2, 1): (DATE, 40000.0),
     (1, 3): (BLANK, ''), (3, 0): (BLANK, '')},
    {(1, 1): (TEXT, SST[1]), (0, 0): (BOOL, 1), (3, 0): (ERROR, 7),
     (1, 0): (TEXT, 'result'), (2, 2): (NUMBER, -3.0)},
    {(0, 1): (NUMBER, 2.0), (0, 0): (TEXT, 'l\xe4bel'), (1, 2): (BLANK, ''),
     (2, 0): (DATE, 1.25), (2, 1): (NUMBER, 1e300)},
]
MERGED = {2: (4, 4)}            # size of sheet 2 with its merged area


def xls_stream(padding):
    s0 = (g.dimensions(4, 4) + g.number(0, 0, 0, 1.5) +
          g.labelsst(0, 2, 0, 0) + g.blank(1, 3, 0) +
          g.rk(2, 1, 1, 'i', 40000) + g.mulblank(3, 0, [0]))
    s1 = (g.boolerr(0, 0, 0, 1, 0) + g.labelsst(1, 1, 0, 1) +
          g.formula(1, 0, 0, g.fstr()) + g.string('result') +
          g.boolerr(3, 0, 0, 7, 1) + g.number(2, 2, 0, -3.0))
    s2 = (g.number(2, 1, 0, 1e300) + g.number(2, 0, 1, 1.25) +
          g.label(0, 0, 0, 'l\xe4bel') + g.mulrk(0, 1, [(0, 'i', 2)]) +
          g.blank(1, 2, 0) +
          g.rec(0xE5, struct.pack('<HHHHH', 1, 2, 3, 2, 3)))
    return g.workbook(list(zip(NAMES, (s0, s1, s2))), SST, (0, 14),
                      globalpad=padding, order=(2, 0, 1))


def xlsx_content(store):
    rows = [
        [(0, [('A1', '', '<v>1.5</v>'), ('C1', ' t="s"', '<v>0</v>')]),
         (1, [('D2', ' s="1"', '')]),
         (2, [('B3', ' s="1"', '<v>40000</v>')]), (3, [('A4', '', '')])],
        [(0, [('A1', ' t="b"', '<v>1</v>')]),
         (1, [('A2', ' t="str"', '<f>B2</f><v>result</v>'),
              ('B2', ' t="s"', '<v>1</v>')]),
         (2, [('C3', '', '<v>-3</v>')]),
         (3, [('A4', ' t="e"', '<v>#DIV/0!</v>')])],
        [(0, [('A1', ' t="inlineStr"', '<is><t>l\xe4bel</t></is>'),
              ('B1', '', '<v>2</v>')]),
         (2, [('A3', ' s="1"', '<v>1.25</v>'), ('B3', '', '<v>1E300</v>')])],
    ]
    sheets = []
    for i, n in enumerate(NAMES):
        sheets.append((n, xg.sheetxml(
            [(' r="%d"' % (r + 1), ['<c r="%s"%s>%s</c>' % c for c in cs])
             for r, cs in rows[i]],
            merge=('C3:D4',) if i == 2 else ())))
    return xg.package(sheets, sst=[xg.si(s) for s in SST],
                      styles=xg.stylesxml([], [0, 14]), store=store)


def scatter(logical):
    return logical[1::2][::-1] + logical[0::2]


LAYOUTS = {
    'bare': lambda: xls_stream(0),
    'short': lambda: g.simple_doc(xls_stream(0)),
    'shortbook': lambda: g.simple_doc(xls_stream(0), 'Book'),
    'contiguous': lambda: g.simple_doc(xls_stream(5000)),
    'scattered': lambda: g.Doc([('Workbook', xls_stream(5000), None)],
                               gaps=1).build(scatter),
    'barelong': lambda: xls_stream(9000),
    'xlsx': lambda: xlsx_content(True),
    'xlsxd': lambda: xlsx_content(False),
}
FILES = {}


def content(layout):
    if layout not in FILES:
        FILES[layout] = LAYOUTS[layout]()
    return FILES[layout]


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='mc_c26_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


# names with characters that mean something elsewhere
ODD = {'odd0': '$HOME ${PATH}.xls', 'odd1': '~', 'odd2': 'a~b *?[0].xlsx',
       'odd3': '%HOME% {0} %s\u00e9.tmp', 'odd4': ' lead.csv ',
       'odd5': "it's \"q\" \\ #1;|&.xls.zip"}


def opened(layout, source, scratch, **kw):
    kw['logfile'] = io.StringIO()
    data = content(layout)
    if source == 'bytes':
        return xlrd.open_workbook(file_contents=data, **kw)
    if source == 'bytesname':
        return xlrd.open_workbook('no such name.xls', file_contents=data,
                                  **kw)
    if source == 'mmapped':
        import mmap
        p = os.path.join(scratch, 'm')
        with open(p, 'wb') as f:
            f.write(data)
        with open(p, 'rb') as f:
            m = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        return xlrd.open_workbook(file_contents=m, **kw)
    if source == 'bytesother':
        # the name of a file that exists and is another workbook
        p = os.path.join(scratch, 'other')
        with open(p, 'wb') as f:
            f.write(content('short' if isx(layout) else 'xlsx'))
        return xlrd.open_workbook(p, file_contents=data, **kw)
    p = os.path.join(scratch, ODD.get(source, 'book'))
    with open(p, 'wb') as f:
        f.write(data)
    if source == 'home':
        home = os.environ.get('HOME')
        os.environ['HOME'] = scratch
        try:
            return xlrd.open_workbook('~/book', **kw)
        finally:
            if home is None:
                del os.environ['HOME']
            else:
                os.environ['HOME'] = home
    return xlrd.open_workbook(p, use_mmap=source == 'mmap', **kw)


def isx(layout):
    return layout.startswith('xlsx')


def want(layout, i, fmt):
    """grid and size of sheet i"""
    gr = GRIDS[i]
    if not fmt:
        gr = {k: v for k, v in gr.items() if v[0] != BLANK}
    size = gm.dims(gr)
    if (fmt or isx(layout)) and i in MERGED:
        size = MERGED[i]
    return gr, size


def check(sh, layout, i, fmt, ragged, what):
    gr, size = want(layout, i, fmt)
    same(sh.name, NAMES[i], what + ' name of sheet %d' % i)
    gm.check_sheet(sh, gr, '%s sheet %d' % (what, i), ragged, size)


def options_case(R, layout, source, on_demand, ragged, fmt, verb, ignore,
                 enc, order):
    kw = dict(on_demand=on_demand, ragged_rows=ragged, formatting_info=fmt,
              verbosity=verb, ignore_workbook_corruption=ignore,
              encoding_override=enc)
    what = '%s from %s with %r' % (layout, source, kw)
    with Scratch() as d:
        wb = opened(layout, source, d, **kw)
        same(wb.nsheets, 3, 'number of sheets of ' + what)
        same(wb.sheet_names(), NAMES, 'sheet names of ' + what)
        for i in order:
            check(wb.sheet_by_index(i), layout, i, fmt, ragged, what)
            R.step()
        wb.release_resources()
        for i in order:
            check(wb.sheet_by_index(i), layout, i, fmt, ragged, what)
    R.state((layout, source, on_demand, ragged, fmt, verb, ignore, enc))
    return layout, source, fmt, ragged


def options(R, layout, verbs):
    perms = list(itertools.permutations(range(3)))
    i = 0
    for source in ('bytes', 'bytesname', 'mmap', 'nommap', 'mmapped'):
        for od, rag, fmt, ign in itertools.product((False, True), repeat=4):
            if fmt and isx(layout):
                continue
            for verb in verbs:
                for enc in (None, 'latin_1', 'cp1252'):
                    for k in range(1 if enc or verb else 6):
                        i += 1
                        R.do(options_case, layout, source, od, rag, fmt, verb,
                             ign, enc, perms[(i if enc or verb else k) % 6])
    for source in ['bytesother', 'home'] + sorted(ODD):
        for od, rag, fmt in itertools.product((False, True), repeat=3):
            if not (fmt and isx(layout)):
                R.do(options_case, layout, source, od, rag, fmt, 0, False,
                     None, perms[4 * od + fmt])


# -- histories --------------------------------------------------------------

OPS = ([('index', i) for i in range(3)] + [('name', i) for i in range(3)] +
       [('unload', i) for i in range(3)] +
       [('getitem', 1), ('getname', 2), ('unloadname', 0), ('list', 0),
        ('sheets', 0), ('next', 0), ('release', 0), ('noname', 0)])
FEW = ([('index', i) for i in range(3)] + [('unload', i) for i in range(3)] +
       [('next', 0), ('release', 0)])


def history_case(R, layout, source, on_demand, fmt, ragged, ops):
    what = 'history %r of %s from %s on_demand=%r' % (
        ops, layout, source, on_demand)
    with Scratch() as d:
        wb = opened(layout, source, d, on_demand=on_demand, ragged_rows=ragged,
                    formatting_info=fmt)
        eager = isx(layout) or not on_demand
        loaded = set(range(3)) if eager else set()
        kept = []
        released = eager
        it = iter(wb)
        nxt = 0

        def fetched(f, idx):
            """f() has to give the sheets idx, unless one of them can not be
            loaded any more."""
            missing = [i for i in idx if i not in loaded]
            try:
                got = f()
            except Mismatch:
                raise
            except Exception as e:
                if missing and released:
                    expect(isx(layout) or isinstance(e, xlrd.XLRDError),
                           '%s: %r when loading after release', what, e)
                    # those before the missing one
                    return None
                raise
            expect(not (missing and released and not isx(layout)),
                   '%s: loading a sheet after release returned', what)
            for i, sh in zip(idx, got):
                check(sh, layout, i, fmt, ragged, what)
                kept.append((i, sh))
                loaded.add(i)
            same(len(got), len(idx), what + ' number of sheets')
            return True

        for op, i in ops:
            R.step()
            if op == 'index':
                fetched(lambda: [wb.sheet_by_index(i)], [i])
            elif op == 'name':
                fetched(lambda: [wb.sheet_by_name(NAMES[i])], [i])
            elif op == 'getitem':
                fetched(lambda: [wb[i]], [i])
            elif op == 'getname':
                fetched(lambda: [wb[NAMES[i]]], [i])
            elif op == 'list':
                fetched(lambda: list(wb), [0, 1, 2])
            elif op == 'sheets':
                fetched(wb.sheets, [0, 1, 2])
            elif op == 'next':
                if nxt is not None and nxt < 3:
                    k = nxt
                    ok = fetched(lambda: [next(it)], [k])
                    nxt = k + 1 if ok else None
            elif op == 'unload':
                wb.unload_sheet(i)
                loaded.discard(i)
            elif op == 'unloadname':
                wb.unload_sheet(NAMES[i])
                loaded.discard(i)
            elif op == 'release':
                wb.release_resources()
                released = True
            elif op == 'noname':
                for f in (wb.sheet_by_name, wb.sheet_loaded, wb.unload_sheet,
                          wb.__getitem__):
                    try:
                        f('no such')
                    except xlrd.XLRDError:
                        pass
                    else:
                        expect(False, '%s: sheet of unknown name', what)
            # always
            same(wb.sheet_names(), NAMES, what + ' sheet names')
            same(wb.nsheets, 3, what + ' number of sheets')
            if not (eager and len(loaded) < 3):
                for k in range(3):
                    same(wb.sheet_loaded(k), k in loaded, '%s sheet %d loaded'
                         % (what, k))
                    same(wb.sheet_loaded(NAMES[k]), k in loaded,
                         '%s sheet %d loaded' % (what, k))
            R.state((layout, source, on_demand, fmt, sorted(loaded), released,
                     nxt))
        # sheets the caller has are not changed by what came after
        for i, sh in kept[-4:]:
            check(sh, layout, i, fmt, ragged, what + ' (kept)')
        wb.release_resources()
    return ops


def histories(R, layout, source, on_demand, fmt, ragged, alphabet, depth,
              shard, nshards):
    ops = OPS if alphabet == 'all' else FEW
    for i, h in enumerate(itertools.product(ops, repeat=depth)):
        if i % nshards == shard:
            R.do(history_case, layout, source, on_demand, fmt, ragged, h)


def with_case(R, layout, source, on_demand, fail):
    """The with statement releases resources and keeps what was loaded."""
    with Scratch() as d:
        try:
            with opened(layout, source, d, on_demand=on_demand) as wb:
                sh = wb.sheet_by_index(1)
                if fail:
                    raise KeyError('body')
        except KeyError:
            expect(fail, 'KeyError')
        else:
            expect(not fail, 'an error in the body disappeared')
        check(sh, layout, 1, False, False, 'with')
        check(wb.sheet_by_index(1), layout, 1, False, False, 'with')
        if on_demand and not isx(layout):
            try:
                wb.sheet_by_index(0)
            except xlrd.XLRDError:
                pass
            else:
                expect(False, 'loaded after with')
    R.state(('with', layout, source, on_demand, fail))
    return fail


def withs(R):
    for layout in LAYOUTS:
        for source in ('bytes', 'mmap', 'nommap'):
            for od in (False, True):
                for fail in (False, True):
                    R.do(with_case, layout, source, od, fail)


# -- many sheets, wide sheets -----------------------------------------------

def mname(i):
    return 'Sheet no %d' % i


def many_content(kind, n):
    if kind == 'xlsx':
        return xg.package([(mname(i), xg.sheetxml([(' r="1"', [
            '<c r="A1"><v>%d</v></c>' % i, '<c r="C1" t="str"><v>s%d</v></c>'
            % i])])) for i in range(n)])
    stream = g.workbook([(mname(i), g.number(0, 0, 0, i) +
                          g.label(0, 2, 0, 's%d' % i)) for i in range(n)],
                        None, (0,), order=list(range(n))[::-1]
                        if kind == 'reversed' else None)
    return g.simple_doc(stream)


def many_check(sh, i, what):
    same(sh.name, mname(i), what + ': name of sheet %d' % i)
    gm.check_sheet(sh, {(0, 0): (NUMBER, float(i)),
                        (0, 2): (TEXT, 's%d' % i)},
                   '%s: sheet %d' % (what, i), None)


def many_case(R, kind, n, on_demand, how):
    wb = gm.open_bytes(many_content(kind, n), on_demand=on_demand)
    what = '%s of %d sheets, on_demand=%r, %s' % (kind, n, on_demand, how)
    same(wb.nsheets, n, what + ': number of sheets')
    same(wb.sheet_names(), [mname(i) for i in range(n)], what + ': names')
    idx = list(range(n))
    if how == 'iterate':
        got = list(wb)
    elif how == 'sheets':
        got = wb.sheets()
    elif how == 'twice':
        list(wb)
        got = wb.sheets()
    elif how == 'index':
        got = [wb.sheet_by_index(i) for i in idx]
    elif how == 'backwards':
        got = [wb.sheet_by_index(i) for i in idx[::-1]][::-1]
    elif how == 'name':
        got = [wb.sheet_by_name(mname(i)) for i in idx]
    elif how == 'getitem':
        got = [wb[i] if i % 2 else wb[mname(i)] for i in idx]
    elif how == 'unload':
        got = []
        for i in idx:
            got.append(wb.sheet_by_index(i))
            wb.unload_sheet(i if i % 2 else mname(i))
            expect(not wb.sheet_loaded(i), '%s: sheet %d still loaded', what,
                   i)
    elif how == 'reload':
        first = [wb.sheet_by_index(i) for i in idx]
        for i in idx[::-1]:
            wb.unload_sheet(i)
        got = [wb.sheet_by_index(i) for i in idx]
        for i in idx:
            expect(got[i] is not first[i], '%s: sheet %d', what, i)
    elif how == 'some':
        for i in idx[::3]:
            wb.sheet_by_index(i)
        for i in idx[::6]:
            wb.unload_sheet(i)
        got = list(wb)
    same(len(got), n, what + ': sheets')
    for i in idx:
        many_check(got[i], i, what)
        R.step()
    for i in (n, n + 1, 10 * n):
        for f in (wb.sheet_by_index, wb.__getitem__):
            try:
                f(i)
            except Exception:
                continue
            expect(False, '%s: there is a sheet %d', what, i)
    R.state((kind, n, on_demand, how))
    return kind, n, on_demand, how


def many(R, n):
    for kind in ('xls', 'reversed', 'xlsx'):
        for od in (False, True):
            for how in ('iterate', 'sheets', 'twice', 'index', 'backwards',
                        'name', 'getitem', 'unload', 'reload', 'some'):
                if how in ('unload', 'reload', 'some') and (
                        kind == 'xlsx' or not od):
                    continue
                R.do(many_case, kind, n, od, how)


def gap_case(R, kind, cols, rev, ragged, fmt, on_demand):
    """A row with cells in the given columns only, a short row before and
    after it."""
    grid = {(1, c): (NUMBER, c + 0.5) for c in cols}
    grid[0, 0] = grid[2, 1] = (TEXT, 'x')
    if kind == 'xlsx':
        cs = ['<c r="%s"><v>%r</v></c>' % (xg.addr(1, c), c + 0.5)
              for c in cols]
        t = '<c r="%s" t="str"><v>x</v></c>'
        data = xg.package([('S', xg.sheetxml([
            (' r="1"', [t % 'A1']), (' r="2"', cs[::-1] if rev else cs),
            (' r="3"', [t % 'B3'])]))])
    else:
        cs = [g.number(1, c, 0, c + 0.5) for c in cols]
        data = g.workbook([('S', g.label(0, 0, 0, 'x') + b''.join(
            cs[::-1] if rev else cs) + g.label(2, 1, 0, 'x'))], None, (0,))
    wb = gm.open_bytes(data, ragged_rows=ragged, formatting_info=fmt,
                       on_demand=on_demand)
    gm.check_sheet(wb.sheet_by_index(0), grid, '%s, row with columns %r%s, '
                   'ragged_rows=%r' % (kind, cols, ' reversed' if rev else '',
                                       ragged), ragged)
    R.step()
    R.state((kind, cols, rev, ragged, fmt, on_demand))
    return kind, cols


def gaps(R, kind):
    edge = (0, 1, 2, 7, 8, 31, 32, 63, 64, 65, 66, 127, 128, 129, 254, 255)
    sets = [(c,) for c in edge] + list(itertools.combinations(edge, 2)) + [
        tuple(range(0, 256, k)) for k in (2, 3, 5, 65, 66, 70, 100)]
    for i, cols in enumerate(sets):
        for ragged in (False, True):
            for fmt in (False, True):
                if fmt and kind == 'xlsx':
                    continue
                for rev in (False, True):
                    R.do(gap_case, kind, cols, rev, ragged, fmt, i % 2 == 0)


def tasks(tier):
    out = [('withs', ())]
    quick = tier == 'quick'
    out += [('many', (n,)) for n in (1, 2, 5, 12, 40, 300) + (
        () if quick else (600,))]
    out += [('gaps', (k,)) for k in ('xls', 'xlsx')]
    for la in LAYOUTS:
        out.append(('options', (la, (0, 1) if quick else (0, 1, 2, 3))))
    for la, src in (('short', 'bytes'), ('contiguous', 'mmap'),
                    ('bare', 'mmap'), ('scattered', 'nommap'),
                    ('xlsx', 'bytes')):
        n = 1 if quick else 4
        for od in (False, True):
            if od is False and la not in ('short', 'xlsx'):
                continue
            out.append(('histories', (la, src, od, False, False, 'all', 2, 0,
                                      1)))
            if od and la != 'xlsx':
                out.append(('histories', (la, src, od, True, True, 'all', 2,
                                          0, 1)))
                for s in range(n):
                    out.append(('histories', (la, src, od, False, False,
                                              'all', 3, s, n)))
                    if not quick:
                        out.append(('histories', (la, src, od, True, False,
                                                  'all', 3, s, n)))
    if not quick:
        for la, src in (('short', 'bytes'), ('contiguous', 'mmap')):
            for s in range(32):
                out.append(('histories', (la, src, True, False, False, 'all',
                                          4, s, 32)))
                out.append(('histories', (la, src, True, False, False, 'few',
                                          5, s, 32)))
    return out


def bounds(tier):
    return ('one workbook of 3 sheets in 8 layouts (bare stream, short '
            'stream, contiguous, scattered, xlsx); full product of source, '
            'on_demand, ragged_rows, formatting_info, verbosity, '
            'ignore_workbook_corruption, encoding_override; all histories '
            'of load, unload, iterate, release up to length %s; 10 ways to '
            'get all of up to 300 sheets; rows with gaps of every width edge'
            % ('3 over 17 operations' if tier == 'quick' else
               '4 over 17 and 5 over 8 operations'))
