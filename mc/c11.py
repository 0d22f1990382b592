"""C11: lazy reading finds what an explicit read would."""
import io
import itertools
import locale
import re
import numpy as np
from core import expect, same
import packmodel as pm
import textmodel as tm
from channelpack.readtext import lazy_textpack, textpack

PROP = 'C11'
ASSUMPTIONS = ['numeric data on consecutive lines without missing values '
               'within the inspected lines, one delimiter, no digits above '
               'the data',
               'decimal mark recognisable on the last inspected line: with '
               'decimal comma a number there has digits on both sides of it, with comma as delimiter a '
               'decimal point is',
               'preamble lines do not have as many fields as there are '
               'columns unless a line of field names stands below them']

DELIMS = [';', '\t', ' ', ',', ', ', '; ', '|', ' | ', '/', '  ', '\t\t',
          ' \t']
PRE = {0: [], 1: ['Some preamble'], 2: ['Title of it:', '', 'more text here'],
       3: ['A', 'b - c / d', 'eee . fff + ggg']}


def fields_for(ncols, delim, style):
    base = [['time', 'speed', 'temp', 'x'], ['alpha beta', 'C', 'dd ee', 'F g'],
            ['Été', 'name (m/s)', '[kg]', 'q%']][style]
    out = base[:ncols]
    if delim in (' ', '/') or ncols == 1:
        out = [f.replace(' ', '_').replace('/', '_') for f in out]
    return out


def okpre(lines, delim, ncols, named):
    if named:
        return True
    d = delim.strip() or delim
    for l in lines:
        parts = [f for f in (l.split(d) if ncols > 1 else l.split())
                 if f.strip()]
        if len(parts) == ncols:
            return False
    return True


def build(rows, delim, pre, names, gap, eol, trail):
    lines = list(pre)
    if names is not None:
        lines.append(delim.join(names))
    lines += [''] * gap
    nhead = len(lines)
    lines += [delim.join(r) for r in rows]
    text = eol.join(lines) + eol * trail
    return text, nhead


def case(R, rows, delim, prek, style, gap, eol, trail, kind, parselines):
    ncols = len(rows[0])
    pre = PRE[prek]
    names = None if style is None else fields_for(ncols, delim, style)
    text, nhead = build(rows, delim, pre, names, gap, eol, trail)
    src = tm.Source(kind, text)
    kw = dict(src.kw)
    if not kw and kind != 'str':
        kw['encoding'] = 'utf-8'
    if parselines is not None:
        # relative to the first data line
        kw['parselines'] = nhead + parselines
    cols = [[tm.norm_float(r[c]) for r in rows] for c in range(ncols)]
    want = {} if names is None else {
        i: f.strip() for i, f in enumerate(names)}
    try:
        pack = lazy_textpack(src.arg, **kw)
        tm.check_pack(pack, cols, want, range(ncols),
                      'lazy_textpack(%r, %s, %r)' % (text, kind, kw),
                      src.name)
    finally:
        src.close()
    R.step()
    R.state((text, kind, parselines))
    return (tuple(map(tuple, cols)), delim)


NUM = {'int': ['1', '-2', '+3', '0', '1234', '-1e3', '5E+2'],
       'dot': ['1.5', '-0.25', '+3.0', '12.125', '-1.5e3', '2.5E-2', '0.0'],
       'dotx': ['.5', '5.', '1.5', '-.25', '7'],
       'comma': ['1,5', '-0,25', '+3,0', '12,125', '-1,5e3', '0,0'],
       'commax': ['1,5', '7', '-2,5', '0,25', '+4'],
       'commay': ['1,5', '5,', ',5', '-7,', '+,25', ',5e2', '3,E-1'],
       'dote': ['1.5e100', '-2.5E-300', '1e5', '3', '0.25e+099'],
       'commae': ['1,5e100', '-2,5E-300', '7', '1e5', '0,25e+099',
                  '12345678901234567890,5', '1,00000000000000001']}


def legal(rows, delim, fmt):
    d = delim.strip()
    last = ''.join(rows[-1])
    if fmt.startswith('comma'):
        if d == ',':
            return False
        return any(re.search(r'\d,\d', x) for x in rows[-1])
    if d == ',':
        # a comma between integers reads as a decimal comma; every data line
        # shows a decimal point
        return fmt != 'dotx' and all(any('.' in x for x in r)
                                     for r in rows)
    if d == '/' and fmt == 'comma':
        return True
    return True


def contents(R, fmt, shape, alph, delims, shard, nshards):
    """All tables of a shape over the number alphabet; headers, sources and
    windows rotate."""
    nrows, ncols = shape
    i = 0
    rot = list(itertools.product(
        (0, 1, 2, 3), (None, 0, 1, 2), tm.SOURCES, (0, 1), ('\n', '\r\n'),
        (0, 1, 2), (None, 1, nrows, nrows + 3)))
    try:
        for delim in delims:
            for cells in itertools.product(NUM[fmt][:alph],
                                           repeat=nrows * ncols):
                rows = [list(cells[r * ncols:(r + 1) * ncols])
                        for r in range(nrows)]
                if not legal(rows, delim, fmt):
                    continue
                i += 1
                if i % nshards != shard:
                    continue
                h = (i // nshards) * 7919 % len(rot)
                prek, style, kind, gap, eol, trail, pl = rot[h]
                if not fits(rows, fmt, delim, prek, style, pl, nrows, ncols):
                    prek, style, pl = 0, None, None
                R.do(case, rows, delim, prek, style, gap, eol, trail, kind,
                     pl)
    finally:
        tm.cleanup()


def fits(rows, fmt, delim, prek, style, pl, nrows, ncols):
    if not okpre(PRE[prek], delim, ncols, style is not None):
        return False
    if pl is not None and pl < nrows:
        # the last inspected line has to show the decimal mark
        if not legal(rows[:pl], delim, fmt):
            return False
    return True


def shapes(R, shard, nshards, full):
    """All headers x sources x windows x sizes for a few number patterns."""
    i = 0
    try:
        for delim in DELIMS:
            for fmt in ('int', 'dot', 'comma'):
                for nrows, ncols in ((1, 1), (1, 3), (2, 2), (3, 1), (3, 2),
                                     (30, 2), (30, 1)):
                    pool = NUM[fmt]
                    rows = [[pool[(r + 2 * c) % len(pool)]
                             for c in range(ncols)] for r in range(nrows)]
                    if not legal(rows, delim, fmt):
                        continue
                    if ncols == 1 and delim != ';':
                        continue
                    for prek in PRE:
                        for style in (None, 0, 1, 2):
                            for gap in (0, 1):
                                for pl in (None, 1, 2, nrows, nrows + 1,
                                           nrows + 40):
                                    for kind in tm.SOURCES:
                                        for eol, trail in (
                                                ('\n', 1), ('\r\n', 0),
                                                ('\n', 3)):
                                            if not full and (
                                                    eol, trail) != (
                                                        '\n', 1) and i % 3:
                                                i += 1
                                                continue
                                            i += 1
                                            if i % nshards != shard:
                                                continue
                                            if not full and i // nshards % 3 \
                                                    and delim in DELIMS[9:]:
                                                continue
                                            if not fits(rows, fmt, delim,
                                                        prek, style, pl,
                                                        nrows, ncols):
                                                continue
                                            R.do(case, rows, delim, prek,
                                                 style, gap, eol, trail,
                                                 kind, pl)
    finally:
        tm.cleanup()


def streams(R):
    """Streams without a file name."""
    try:
        for kind in tm.STREAMS:
            for fmt in ('int', 'dot', 'comma'):
                for nrows, ncols in ((1, 1), (3, 2), (30, 2)):
                    rows = [[NUM[fmt][(r + 2 * c) % len(NUM[fmt])]
                             for c in range(ncols)] for r in range(nrows)]
                    for delim in (';', '\t'):
                        for style in (None, 1, 2):
                            for prek in PRE:
                                if legal(rows, delim, fmt) and fits(
                                        rows, fmt, delim, prek, style, None,
                                        nrows, ncols):
                                    R.do(case, rows, delim, prek, style, 0,
                                         '\n', 1, kind, None)
    finally:
        tm.cleanup()


def override(R, fmt, delim, kind, which, named):
    """Caller's keywords win over derived ones."""
    pool = NUM[fmt]
    nrows, ncols = 4, 3
    rows = [[pool[(r + 2 * c) % len(pool)] for c in range(ncols)]
            for r in range(nrows)]
    names = fields_for(ncols, delim, 0) if named else None
    text, nhead = build(rows, delim, ['Pre'], names, 0, '\n', 1)
    src = tm.Source(kind, text)
    kw = dict(src.kw)
    cols = [[tm.norm_float(r[c]) for r in rows] for c in range(ncols)]
    want = dict(enumerate(names)) if named else {}
    keys = list(range(ncols))
    if which.startswith('usecols'):
        u = {'usecols1': (0, 2), 'usecols2': (2, 0), 'usecols3': 1,
             'usecols4': [1]}[which]
        kw['usecols'] = u
        keys = sorted((u,) if type(u) is int else u)
        want = {k: v for k, v in want.items() if k in keys}
    elif which == 'names':
        kw['names'] = {0: 'p', 2: 'q'}
        keys, want = [0, 2], {0: 'p', 2: 'q'}
    elif which == 'nonames':
        kw['names'] = None
        want = {}
    elif which == 'nocols':
        kw['usecols'] = None
    elif which == 'none':
        kw['converters'] = kw['usecols'] = kw['names'] = None
        want = {}
    elif which == 'names+usecols':
        kw['names'] = {1: 'p'}
        kw['usecols'] = (0, 1)
        keys, want = [1], {1: 'p'}
    elif which == 'skiprows':
        kw['skiprows'] = nhead + 2
        cols = [c[2:] for c in cols]
    elif which == 'converters':
        kw['converters'] = {c: (lambda s, c=c: 100.0 + c)
                            for c in range(ncols)}
        cols = [[100.0 + c] * nrows for c in range(ncols)]
    elif which == 'debug':
        kw['debug'] = True
    elif which == 'delimiter':
        kw['delimiter'] = src.delim(delim.strip() or delim)
    elif which == 'parselines':
        kw['parselines'] = nhead + 1
    try:
        pack = lazy_textpack(src.arg, **kw)
        tm.check_pack(pack, cols, want, keys, 'lazy_textpack(%r, %s, %r)' % (
            text, kind, kw), src.name)
    finally:
        src.close()
    R.step()
    R.state((fmt, delim, kind, which, named))
    return (which, named, fmt)


def overrides(R):
    try:
        for fmt in ('int', 'dot', 'comma'):
            for delim in DELIMS:
                if delim.strip() == ',' and fmt != 'dot':
                    continue
                for kind in tm.SOURCES:
                    for which in ('usecols1', 'usecols2', 'usecols3',
                                  'usecols4', 'names', 'names+usecols',
                                  'skiprows', 'converters', 'debug',
                                  'delimiter', 'parselines', 'nonames',
                                  'nocols', 'none'):
                        for named in (False, True):
                            R.do(override, fmt, delim, kind, which, named)
    finally:
        tm.cleanup()


def tail_case(R, fmt, delim, kind, nc, nmiss):
    """Missing values beyond the inspected lines come out as nan."""
    pool = NUM[fmt]
    rows = [[pool[(r + 2 * c) % len(pool)] for c in range(nc)]
            for r in range(6)]
    for c in nmiss:
        rows[4][c] = ''
    text, nhead = build(rows, delim, ['Pre'], fields_for(nc, delim, 0), 0,
                        '\n', 1)
    src = tm.Source(kind, text)
    cols = [[tm.NAN if r[c] == '' else tm.norm_float(r[c]) for r in rows]
            for c in range(nc)]
    try:
        pack = lazy_textpack(src.arg, parselines=nhead + 3, **src.kw)
        tm.check_pack(pack, cols, dict(enumerate(fields_for(nc, delim, 0))),
                      range(nc), repr(text), src.name)
    finally:
        src.close()
    R.step()
    R.state((fmt, delim, kind, nc, nmiss))
    return (fmt, nc, nmiss)


def tails(R):
    try:
        for fmt in ('int', 'dot', 'comma'):
            for delim in (';', '|', '\t'):
                for kind in tm.SOURCES:
                    for nc, nmiss in ((3, (0,)), (3, (1,)), (3, (2,)),
                                      (4, (1,)), (4, (2,)), (4, (3,)),
                                      (4, (0, 2)), (4, (1, 2)), (4, (0, 3)),
                                      (2, (1,))):
                        R.do(tail_case, fmt, delim, kind, nc, nmiss)
    finally:
        tm.cleanup()


def pad_case(R, fmt, delim, kind, pads, named):
    """Spaces around a visible delimiter differ from field to field."""
    pool = NUM[fmt]
    rows = [[pool[(r + 2 * c) % len(pool)] for c in range(3)]
            for r in range(2)]
    lines = ['Preamble']
    names = fields_for(3, delim, 0)
    if named:
        lines.append(delim.join(names))
    for r, (p, q) in zip(rows, pads):
        lines.append(r[0] + p[0] + delim + p[1] + r[1] + q[0] + delim + q[1] +
                     r[2])
    text = '\n'.join(lines) + '\n'
    src = tm.Source(kind, text)
    cols = [[tm.norm_float(r[c]) for r in rows] for c in range(3)]
    try:
        pack = lazy_textpack(src.arg, **src.kw)
        tm.check_pack(pack, cols, dict(enumerate(names)) if named else {},
                      range(3), 'lazy_textpack(%r)' % text, src.name)
    finally:
        src.close()
    R.step()
    R.state((text, kind))
    return (fmt, delim, pads)


def padding(R, fmt):
    one = [(a, b) for a in ('', ' ', '  ') for b in ('', ' ')]
    rowpads = list(itertools.product(one, repeat=2))
    i = 0
    try:
        for delim in (';', ',', '|', '/'):
            if delim == ',' and fmt != 'dot':
                continue
            for pads in itertools.product(rowpads, repeat=2):
                i += 1
                R.do(pad_case, fmt, delim, tm.SOURCES[i % len(tm.SOURCES)],
                     pads, bool(i // 8 % 2))
    finally:
        tm.cleanup()


def enc_case(R, kind, enc, fmt, delim, style, word):
    """Preamble and field names outside ASCII, in the encoding given, or in
    the default encoding when none is (or None)."""
    codec = enc if enc not in ('omitted', 'None') else \
        locale.getpreferredencoding()
    rows = [[NUM[fmt][(r + c) % len(NUM[fmt])] for c in range(2)]
            for r in range(3)]
    if not legal(rows, delim, fmt):
        return None
    names = None if style is None else ['n' + word, word]
    text, nhead = build(rows, delim, ['about %s:' % word] if style is not None
                        else ['%s about %s it:' % (word, word)],
                        names, 0, '\n', 1)
    try:
        raw = text.encode(codec)
    except UnicodeEncodeError:
        return None
    kw = {} if enc == 'omitted' else {'encoding': None if enc == 'None'
                                      else enc}
    cols = [[tm.norm_float(r[c]) for r in rows] for c in range(2)]
    what = 'lazy_textpack(%s of %r, %r)' % (kind, raw, kw)
    f = None
    try:
        if kind == 'bytes':
            arg = io.BytesIO(raw)
        else:
            arg = tm.put(raw)
            if kind == 'binfile':
                arg = f = io.open(arg, 'rb')
        pack = lazy_textpack(arg, **kw)
        tm.check_pack(pack, cols, {} if names is None else dict(
            enumerate(names)), range(2), what,
            '' if kind == 'bytes' else tm.scratch_path())
    finally:
        if f is not None:
            f.close()
    R.step()
    R.state((raw, kind, enc))
    return kind, enc, delim


def encs(R):
    try:
        for word in ('\xc9t\xe9', '\u03a9', '\u4e2d\u6587', '\U0001f600',
                     '\xb0C', '\u20ac'):
            for enc in ('omitted', 'None', 'utf-8', 'latin-1', 'cp1252',
                        'iso8859-7', 'cp437', 'gbk'):
                for kind in ('path', 'bytes', 'binfile'):
                    for fmt in ('int', 'dot', 'comma'):
                        for delim in (';', '\t', ' ', ','):
                            if delim == ',' and fmt == 'comma':
                                continue
                            for style in (None, 1):
                                R.do(enc_case, kind, enc, fmt, delim, style,
                                     word)
    finally:
        tm.cleanup()


def bad_case(R, text, kind):
    """No numeric data at all: refused."""
    src = tm.Source(kind, text)
    try:
        try:
            lazy_textpack(src.arg)
        except Exception:
            R.state((text, kind))
            return text
        expect(False, '%r accepted', text)
    finally:
        src.close()


def bads(R):
    try:
        for kind in tm.SOURCES:
            for text in ('no numbers here\nnor here\n',
                         'a;b\nc;d\n'):
                R.do(bad_case, text, kind)
    finally:
        tm.cleanup()


WORD = 'abcdefghijklmnopqrstuvwxyz'


def letters(i):
    s = ''
    while True:
        s = WORD[i % 26] + s
        i //= 26
        if not i:
            return 'n_' + s


def big_case(R, nrows, ncols, fmt, delim, kind, npre, named, pl, prelines,
             first=None):
    """Many columns, rows, preamble lines; window around the first data
    line."""
    pool = NUM[fmt]
    rows = [[pool[(r * 3 + 2 * c) % len(pool)] for c in range(ncols)]
            for r in range(nrows)]
    if first == 'int':      # the decimal comma shows further down only
        rows[0] = [NUM['int'][c % 4] for c in range(ncols)]
    names = [letters(c) for c in range(ncols)] if named else None
    pre = ['line of text ' + WORD[:i % 9 + 1] if i % 5 else ''
           for i in range(npre)]
    text, nhead = build(rows, delim, pre, names, 0, '\n', 1)
    src = tm.Source(kind, text, prelines=prelines)
    kw = dict(src.kw)
    if pl is not None:
        kw['parselines'] = nhead + pl
    cols = [[tm.norm_float(r[c]) for r in rows] for c in range(ncols)]
    what = 'lazy read of %d x %d %s numbers, %r, from %s, %d + %r lines' % (
        nrows, ncols, fmt, delim, kind, nhead, pl)
    try:
        pack = lazy_textpack(src.arg, **kw)
        same(sorted(pack.data), list(range(ncols)), what + ': keys')
        for c in range(ncols):
            got = pack(c).tolist()
            if got != cols[c]:
                i = next((i for i, (x, y) in enumerate(zip(got, cols[c]))
                          if x != y), min(len(got), len(cols[c])))
                expect(False, '%s: channel %d of %d rows differs from row '
                       '%d: %r, want %r', what, c, len(got), i,
                       got[i:i + 1], cols[c][i:i + 1])
        same(dict(pack.names), dict(enumerate(names)) if named else {},
             what + ': names')
        same(pack.fn, src.name, what + ': fn')
    finally:
        src.close()
    R.step()
    R.state((nrows, ncols, fmt, delim, kind, npre, named, pl, prelines))
    return (nrows, ncols, fmt, named)


def big(R, shard, nshards):
    cases = []
    j = 0
    kinds = tm.BIGSOURCES
    for ncols in (5, 8, 9, 10, 11, 12, 13, 16, 17, 26, 27, 33, 65, 101, 129,
                  257, 300):
        for fmt in ('int', 'dot', 'comma'):
            for delim in (';', '\t', ' ', ',', ' | '):
                if delim == ',' and fmt != 'dot':
                    continue
                for named in (False, True):
                    j += 1
                    cases.append((4, ncols, fmt, delim,
                                  kinds[j % len(kinds)], j % 5 + 2, named,
                                  (None, 1, 2, 4, 9)[j % 5],
                                  (1, 400, 8000)[j % 3]))
    for ncols in (3, 9, 11, 13, 17, 33, 65, 129, 257):
        for kind in kinds:
            for named in (False, True):
                j += 1
                cases.append((4, ncols, 'comma', (';', '\t', ' ')[j % 3],
                              kind, 1, named, (None, 2, 4)[j // 2 % 3], 1,
                              'int'))
    for nrows in (24, 25, 26, 27, 50, 100, 257, 1025, 4097, 10001, 33000):
        for fmt in ('int', 'dot', 'comma'):
            for delim in (';', '\t', ' '):
                for named in (False, True):
                    if nrows > 5000 and delim != ';':
                        continue
                    j += 1
                    cases.append((nrows, 2, fmt, delim,
                                  kinds[j % len(kinds)], j % 5 + 2, named,
                                  (None, 1, 25, nrows, nrows + 9)[j % 5]
                                  if nrows < 2000 else None,
                                  (1, 400, 8000)[j % 3]))
    for npre in range(0, 24):
        for fmt in ('int', 'dot', 'comma'):
            for named in (False, True):
                for pl in (None, 1, 3):
                    j += 1
                    if pl is None and npre + named > 24:
                        continue
                    cases.append((3, 3, fmt, (';', '\t')[j % 2],
                                  kinds[j % len(kinds)], npre, named, pl,
                                  1))
    for npre in (25, 40, 100, 300):
        for fmt in ('int', 'dot', 'comma'):
            for named in (False, True):
                for kind in kinds:
                    cases.append((3, 3, fmt, ';', kind, npre, named, 2, 1))
    try:
        for i, c in enumerate(cases):
            if i % nshards == shard:
                R.do(big_case, *c)
    finally:
        tm.cleanup()


def bounds(tier):
    return ('all tables 1x2, 2x2, 2x1, 3x1 (1x3, thorough 2x3, 3x2) over '
            '4..7 number literals in 5 notations x 9 delimiters; full '
            'product of 4 preambles x 4 name styles x gap x 6 window sizes '
            'x 8 sources x line ends for 7 sizes; 11 overriding keywords; all paddings of '
            '2 x 2 delimiters; up to 300 columns, 33000 rows, 300 preamble '
            'lines, every preamble of 0..23 lines with the default window')


def tasks(tier):
    q = tier == 'quick'
    t = [('overrides', ()), ('tails', ()), ('bads', ()), ('encs', ())]
    t += [('big', (s, 8)) for s in range(8)] + [('streams', ())]
    t += [('padding', (fmt,)) for fmt in ('int', 'dot', 'comma')]
    for fmt in ('int', 'dot', 'dotx', 'comma', 'commax', 'commay',
                'commae', 'dote'):
        for shape, a, k in (((1, 1), 7, 1), ((2, 1), 7, 1), ((3, 1), 5, 1),
                            ((1, 2), 7, 1), ((1, 3), 5, 4),
                            ((2, 2), 5 if q else 7, 8)):
            ds = (DELIMS[:9] if q else DELIMS) if shape[1] > 1 else [';']
            t += [('contents', (fmt, shape, a, ds, s, k)) for s in range(k)]
        if not q:
            for shape in ((2, 3), (3, 2)):
                t += [('contents', (fmt, shape, 4, DELIMS, s, 64))
                      for s in range(64)]
    t += [('shapes', (s, 64, not q)) for s in range(64)]
    return t
