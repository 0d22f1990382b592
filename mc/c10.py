"""C10: delimited text is read cell for cell into the right channel."""
import io
import itertools
import locale
import numpy as np
from core import expect, same
import packmodel as pm
import textmodel as tm
from channelpack.readtext import textpack

PROP = 'C10'
ASSUMPTIONS = ['tables are rectangular with at least one data line; white '
               'space at the very start and end of a line is not part of a '
               'field',
               'decimal comma is not used together with a comma delimiter']

DELIMS = {None: '  ', ';': ';', ',': ',', '\t': '\t', '|': '|', ' ': ' ',
          '::': '::'}


def render(rows, delim, eol='\n', lasteol=True, blanks=()):
    joiner = DELIMS[delim]
    lines = []
    for i, r in enumerate(rows):
        lines.append(joiner.join(r))
        if i in blanks:
            lines.append('')
    return eol.join(lines) + (eol if lasteol else '')


def read(src, delim, **kw):
    args = dict(src.kw)
    args.update(kw)
    if delim is not None:
        args['delimiter'] = src.delim(delim)
    return textpack(src.arg, **args)


def table(R, rows, delim, kind, eol, lasteol, blanks, debug):
    text = render(rows, delim, eol, lasteol, blanks)
    src = tm.Source(kind, text)
    try:
        pack = read(src, delim, debug=debug)
        cols = tm.expected(rows, delim != ',', False, src.astext)
        tm.check_pack(pack, cols, {}, range(len(rows[0])),
                      '%r from %s' % (text, kind), src.name)
    finally:
        src.close()
    R.step()
    R.state((text, delim, kind, debug))
    return tuple(map(tuple, cols))


NUMS = ['1', '-2.5', '', '1e2', '.5']
CNUMS = ['1', '-2,5', '', '1,5e2', ',5']
TEXT = ['a', 'b c', '', 'x1']
TEXT_NOWS = ['a', 'bc', 'x1', 'é']


def pools(delim, comma):
    nums = CNUMS if comma else NUMS
    text = TEXT if delim not in (None, ' ') else TEXT_NOWS
    if delim is None:
        nums = [n for n in nums if n]
    if delim == '::':
        text = [t for t in text]
    return nums, text


def tables(R, delim, comma, shape, kindpat, alph, shard, nshards):
    """All tables of a shape; kindpat says which columns are numeric (n) or
    text (t)."""
    nrows, ncols = shape
    nums, text = pools(delim, comma)
    nums, text = nums[:alph], text[:alph]
    cellpools = []
    for r in range(nrows):
        for c in range(ncols):
            pool = nums if kindpat[c] == 'n' else text
            if r == 0 and kindpat[c] == 'n':
                pool = [x for x in pool if x]
            if ncols == 1:
                pool = [x for x in pool if x]
            cellpools.append(pool)
    i = 0
    try:
        for cells in itertools.product(*cellpools):
            rows = [list(cells[r * ncols:(r + 1) * ncols])
                    for r in range(nrows)]
            if not sane(rows, delim):
                continue
            if comma and not any(',' in x for x in rows[0]):
                # decimal comma has to be recognisable on the first line
                if any(',' in x for r in rows for x in r):
                    continue
            i += 1
            if i % nshards != shard:
                continue
            j = i // nshards
            kind = tm.SOURCES[j % len(tm.SOURCES)]
            eols = ('\n', '\r\n', '\r') if kind in (
                'path', 'textfile') else ('\n', '\r\n')
            R.do(table, rows, delim, kind, eols[(j // 8) % len(eols)],
                 bool((j // 16) % 2), ((), (0,), (nrows - 1,))[j % 3],
                 bool((j // 7) % 2))
    finally:
        tm.cleanup()


def sane(rows, delim):
    """No line may be blank, and white space between fields has no empty
    fields."""
    for r in rows:
        if not (DELIMS[delim].join(r) if delim else ''.join(r)):
            return False
        if delim is None and any(x == '' for x in r):
            return False
    return True


# ---------------------------------------------------------- field names

HEADFIELDS = ('a', '', 'b c', '7')


def header_case(R, fields, delim, kind, u, pad):
    ncols = len(fields)
    rows = [[str(10 * r + c) for c in range(ncols)] for r in range(2)]
    d = DELIMS[delim]
    text = '\n'.join([(pad + d + pad).join(fields)] +
                     [d.join(r) for r in rows]) + '\n'
    src = tm.Source(kind, text)
    keys = asset(u, ncols)
    want = {k: fields[k] if src.astext else fields[k].encode('utf-8')
            for k in keys}
    kw = {'hasnames': True, 'skiprows': 1}
    if u is not None:
        kw['usecols'] = u
    try:
        pack = read(src, delim, **kw)
        tm.check_pack(pack, tm.expected(rows, delim != ',', False,
                                        src.astext), want, keys,
                      'textpack(%r, %s, %r)' % (text, kind, kw), src.name)
    finally:
        src.close()
    R.step()
    R.state((fields, delim, kind, u, pad))
    return (fields, u)


def headers(R, kinds, shard, nshards):
    """Field names, some of them empty."""
    i = 0
    try:
        for n in (2, 3):
            for fields in itertools.product(HEADFIELDS, repeat=n):
                for delim in (';', ',', '\t', '|', '::'):
                    for u in usecolsets(n):
                        for pad in ('', ' '):
                            i += 1
                            if i % nshards == shard:
                                R.do(header_case, fields, delim,
                                     kinds[i // nshards % len(kinds)], u, pad)
    finally:
        tm.cleanup()


# ------------------------------------------------------------- all options

OPT_TABLES = {
    'num': [['1', '2.5', '-3'], ['4', '', '6e1'], ['.5', '8', '9']],
    'mix': [['1', 'a', '2.5'], ['3', 'b c', '4'], ['5', '', '6']],
    'text': [['a', 'b', 'c'], ['d', '1', 'e'], ['2', 'f', 'g']],
    'one': [['1', '2', '3', '4']],
}


def usecolsets(ncols):
    yield None
    for n in range(1, ncols + 1):
        for c in itertools.permutations(range(ncols), n):
            yield c
    for i in range(ncols):
        yield i
    yield (0, 0)
    yield (1, 0, 1)
    yield (0, 1, 0)


def asset(u, ncols):
    if u is None:
        return list(range(ncols))
    if type(u) is int:
        return [u]
    return sorted(set(u))


def options(R, tname, delim, kind, skip, header, u, debug, comma):
    rows = OPT_TABLES[tname]
    if delim is None:
        rows = [[x.replace(' ', '_') or '7' for x in r] for r in rows]
    elif delim == ' ':
        rows = [[x.replace(' ', '_') for x in r] for r in rows]
    if comma:
        rows = [[x.replace('.', ',') if tm.isnum(x, True) else x for x in r]
                for r in rows]
    ncols = len(rows[0])
    fields = ['n%d' % i if i % 2 else 'N é%d' % i for i in range(ncols)]
    if delim in (None, ' '):
        fields = [f.replace(' ', '') for f in fields]
    lines = ['junk%s%d' % (delim or ' ', i) for i in range(skip)]
    kw = {'skiprows': skip}
    keys = asset(u, ncols)
    want = {}
    if header == 'hasnames':
        lines.append((DELIMS[delim] if delim not in (';', '|') else
                      ' ' + delim + ' ').join(fields))
        kw['skiprows'] = skip + 1
        kw['hasnames'] = True
    elif header == 'names':
        want = {k: 'x%d' % k for k in keys}
        kw['names'] = dict(want)
        if u is not None and len(keys) == 1:
            kw['usecols'] = u   # same selection twice
    elif header == 'names+has':
        # names wins over hasnames, the header line is skipped
        lines.append(DELIMS[delim].join(fields))
        kw['skiprows'] = skip + 1
        kw['hasnames'] = True
        want = {k: 'x%d' % k for k in keys}
        kw['names'] = dict(want)
    if u is not None and header not in ('names', 'names+has'):
        kw['usecols'] = u if type(u) is int or sum(u) % 2 else list(u)
    if debug:
        kw['debug'] = True
    text = '\n'.join(lines + [DELIMS[delim].join(r) for r in rows]) + '\n'
    src = tm.Source(kind, text)
    if header == 'hasnames':
        want = {k: fields[k] if src.astext else fields[k].encode('utf-8')
                for k in keys}
    what = 'textpack(%r, %s, %r)' % (text, kind, kw)
    try:
        pack = read(src, delim, **kw)
        cols = tm.expected(rows, delim != ',', False, src.astext)
        tm.check_pack(pack, cols, want, keys, what, src.name)
    finally:
        src.close()
    R.step()
    R.state((tname, delim, kind, skip, header, u, debug, comma))
    return (tname, tuple(keys), tuple(sorted(want.items())))


def optsweep(R, delims, kinds, skips, shard, nshards):
    i = 0
    try:
        for tname in sorted(OPT_TABLES):
            ncols = len(OPT_TABLES[tname][0])
            for delim in delims:
                for comma in (False, True):
                    if comma and (delim == ',' or tname == 'text'
                                  or tname == 'one'):
                        continue
                    for kind in kinds:
                        for skip in skips:
                            for header in (None, 'hasnames', 'names',
                                           'names+has'):
                                for u in usecolsets(min(ncols, 3)):
                                    for debug in (False, True):
                                        i += 1
                                        if i % nshards == shard:
                                            R.do(options, tname, delim, kind,
                                                 skip, header, u, debug,
                                                 comma)
    finally:
        tm.cleanup()


# --------------------------------------------- converters and stripstrings

def conv_case(R, kind, delim, which, strip, u, debug):
    """Converters replace the conversion of their column only; stripstrings
    touches text columns only."""
    rows = [['1', ' a ', ' 2.5 ', ' b'], ['3', ' c d ', ' 4', 'e'],
            ['5', 'f ', '6 ', 'g h']]
    if delim == '\t':
        rows = [[x for x in r] for r in rows]
    text = '\n'.join(delim.join(r) for r in rows) + '\n'
    src = tm.Source(kind, text)
    seen = {}

    def mkconv(c):
        def conv(s):
            seen.setdefault(c, []).append(s)
            return float(len(s)) + c / 4.0
        return conv

    kw = {'stripstrings': strip, 'debug': debug}
    if which:
        kw['converters'] = {c: mkconv(c) for c in which}
    if u is not None:
        kw['usecols'] = u
    cols = tm.expected(rows, delim != ',', strip, src.astext)
    # white space at the ends of a line belongs to no field
    lasts = [r[-1].rstrip() if not strip else r[-1].strip() for r in rows]
    cols[3] = lasts if src.astext else [x.encode() for x in lasts]
    keys = asset(u, 4)
    raw = [[r[c] for r in rows] for c in range(4)]
    for c in which:
        cols[c] = [float(len(x)) + c / 4.0 for x in raw[c]]
    if 3 in which:
        cols[3] = [float(len(x.rstrip())) + 0.75 for x in raw[3]]
    try:
        pack = read(src, delim, **kw)
        tm.check_pack(pack, cols, {}, keys, 'textpack(%r, %s, %r)' % (
            text, kind, kw), src.name)
        for c in which:
            if c in keys:
                same([type(x) for x in seen[c]],
                     [bytes if src.isbytes else str] * 3,
                     'converter argument type')
                got = [x.decode() if src.isbytes else x for x in seen[c]]
                same([x.strip() for x in got], [x.strip() for x in raw[c]],
                     'converter arguments')
    finally:
        src.close()
    R.step()
    R.state((kind, delim, which, strip, u, debug))
    return (which, strip, u)


def convs(R, kinds, shard, nshards):
    i = 0
    try:
        for kind in kinds:
            for delim in (';', '|', '\t', ',', '::'):
                for n in range(0, 5):
                    for which in itertools.combinations(range(4), n):
                        for strip in (False, True):
                            for u in (None, (0, 1), (3, 1), (2,), 1,
                                      (1, 2, 3)):
                                for debug in (False, True):
                                    i += 1
                                    if i % nshards == shard:
                                        R.do(conv_case, kind, delim, which,
                                             strip, u, debug)
    finally:
        tm.cleanup()


# --------------------------------------------------------- number literals

def numbers_case(R, lits, comma, delim, kind):
    """Every literal is read as the float it denotes, in every column
    position."""
    n = len(lits)
    for lit in lits:
        for pos in range(3):
            row = ['0' + (',5' if comma else '.5')] * 3
            row[pos] = lit
            rows = [['1' + (',5' if comma else '.5')] * 3, row]
            for rr in (rows, rows[::-1]):
                text = render(rr, delim)
                src = tm.Source(kind, text)
                try:
                    pack = read(src, delim)
                    cols = tm.expected(rr, delim != ',', False, src.astext)
                    tm.check_pack(pack, cols, {}, range(3), repr(text),
                                  src.name)
                finally:
                    src.close()
                R.step()
    R.state((tuple(lits), comma, delim, kind))
    return (tuple(lits), comma)


def literals():
    ints = ['0', '1', '12', '007', '1234567890123']
    fracs = ['', '.', '.0', '.5', '.125', '.10']
    exps = ['', 'e0', 'E2', 'e-3', 'e+10']
    out = []
    for s in ('', '-', '+'):
        for i in ints:
            for f in fracs:
                for e in exps:
                    out.append(s + i + f + e)
        for f in ('.5', '.125'):
            for e in exps:
                out.append(s + f + e)
    # as programs write them when asked for every digit
    for n in (17, 24, 25, 32, 33, 64, 65, 128, 129, 300):
        d = ('1234567890' * 31)[:n]
        out += [d, '-0.' + d, d[:9] + '.' + d[9:], '0.' + '0' * n + '5',
                d[:1] + '.' + d[1:] + 'e+00' + '7', '0' * n + '1.5',
                '1.5' + '0' * n, '1' + '0' * n + 'e-%d' % n]
    return out + ['nan', 'inf', '-inf', 'NaN', '1e308', '5e-324', '1e400']


def numbers(R, kinds, shard, nshards):
    i = 0
    try:
        for kind in kinds:
            for delim in (None, ';', ',', '\t', ' '):
                for comma in (False, True):
                    if comma and delim == ',':
                        continue
                    for lit in literals():
                        if comma:
                            lit = lit.replace('.', ',')
                        i += 1
                        if i % nshards == shard:
                            R.do(numbers_case, [lit], comma, delim, kind)
    finally:
        tm.cleanup()


# ------------------------------------------------------------------ errors

def bad_case(R, rows, badrow, delim, kind, debug):
    """A numeric column with text further down is an error, never a wrong
    number or a shorter pack - and the same error with debug."""
    text = render(rows, delim)
    src = tm.Source(kind, text)
    try:
        try:
            read(src, delim, debug=debug)
        except ValueError:
            return (badrow, debug)
        expect(False, '%r accepted', text)
    finally:
        src.close()


def badconv_case(R, badrow, delim, kind, debug):
    """An error in a converter reaches the caller, on any line."""
    text = render([['%d' % i, 'z'] for i in range(3)], delim)
    src = tm.Source(kind, text)

    class Boom(Exception):
        pass

    def conv(s):
        if int(s) == badrow:
            raise Boom(s)
        return int(s)
    try:
        try:
            read(src, delim, debug=debug, converters={0: conv})
        except Boom:
            return (badrow, debug)
        expect(False, '%r accepted', text)
    finally:
        src.close()


def bads(R, kinds):
    try:
        for kind in kinds:
            for delim in (';', ',', '\t', None):
                for badrow in range(3):
                    for debug in (False, True):
                        R.do(badconv_case, badrow, delim, kind, debug)
    finally:
        tm.cleanup()
    try:
        for kind in kinds:
            for delim in (';', ',', '\t', None):
                for n in (2, 3, 4):
                    for badrow in range(1, n):
                        for c in (0, 1):
                            for bad in ('x', '1d2', '1.2.3', '--1', '0x1',
                                        '1e', 'e5', '-', '.', '1-2', '1:2',
                                        '5%', '$5', '1/2', 'nan1', '2020-01'):
                                rows = [['1', '2'] for _ in range(n)]
                                rows[badrow][c] = bad
                                for debug in (False, True):
                                    R.do(bad_case, rows, badrow, delim, kind,
                                         debug)
    finally:
        tm.cleanup()


def blank_case(R, blank, delim, kind, where, debug):
    """Lines holding only white space that is not the delimiter are
    skipped wherever they follow the first line."""
    rows = [['1', 'a'], ['2', 'b'], ['3', 'c']]
    lines = [DELIMS[delim].join(r) for r in rows]
    lines.insert(where, blank)
    text = '\n'.join(lines) + '\n'
    src = tm.Source(kind, text)
    try:
        pack = read(src, delim, debug=debug)
        cols = tm.expected(rows, delim != ',', False, src.astext)
        tm.check_pack(pack, cols, {}, range(2), repr(text), src.name)
    finally:
        src.close()
    R.state((blank, delim, kind, where, debug))
    R.step()
    return (blank, where)


def blanks(R, kinds):
    try:
        for kind in kinds:
            for delim in (None, ';', ',', '\t', ' '):
                for n in range(0, 3):
                    for b in itertools.product(' \t\r\x0b\x0c', repeat=n):
                        s = ''.join(b)
                        if delim and delim.isspace() and delim in s:
                            continue
                        if kind in ('path', 'textfile', 'str', 'stroff') \
                                and '\r' in s:
                            continue    # a line end of its own there
                        for where in (1, 2, 3):
                            for debug in (False, True):
                                R.do(blank_case, s, delim, kind, where,
                                     debug)
    finally:
        tm.cleanup()


# ---------------------------------------------------------- large tables

def bigcell(r, c, style, comma):
    if style == 'n':
        s = '%d.%02d' % ((r * 7 + c) % 1000 - 300, (r + 3 * c) % 100)
        return s.replace('.', ',') if comma else s
    if style == 'N':        # long numbers
        s = '%d.%s' % (r * 123457 + c, '0123456789' * 3)
        return s.replace('.', ',') if comma else s
    if style == 'i':        # a whole number in the first row
        return str(c - 7) if r == 0 else bigcell(r, c, 'n', comma)
    if style == 'e':        # missing in every other row
        return '' if r % 2 else bigcell(r, c, 'n', comma)
    if style == 't':
        return 'w%d_%d' % (r, c)
    if style == 'T':
        return 'x' * ((r * 37 + c * 11) % 300 + 1)
    if style == 'L':        # one cell longer than any buffer
        return 'y' * (1000 * (r + 1))


def big_case(R, nrows, ncols, style, delim, comma, kind, skip, header, sel,
             debug, prelines):
    rows = [[bigcell(r, c, style[c % len(style)], comma)
             for c in range(ncols)] for r in range(nrows)]
    fields = ['f%d' % c for c in range(ncols)]
    lines = ['junk %d' % i for i in range(skip)]
    kw = {'skiprows': skip}
    if sel == 'all':
        keys = list(range(ncols))
    elif sel == 'reversed':
        keys = list(range(ncols))[::-1]
    elif sel == 'last':
        keys = [ncols - 1]
    elif sel == 'odd':
        keys = list(range(ncols))[1::2][::-1] + [0]
    elif sel == 'text':
        keys = sorted(range(ncols), key=str)
    elif sel == 'tail':
        keys = list(range(max(ncols - 4, 1), ncols))[::-1]
    elif sel == 'third':
        keys = list(range(min(2, ncols - 1), ncols, 3))
    if header == 'names':
        kw['names'] = {k: 'x%d' % k for k in keys}
        want = dict(kw['names'])
    else:
        want = {}
        if sel != 'all':
            kw['usecols'] = keys
        if header == 'hasnames':
            lines.append(DELIMS[delim].join(fields))
            kw['skiprows'] = skip + 1
            kw['hasnames'] = True
    if debug:
        kw['debug'] = True
    text = '\n'.join(lines + [DELIMS[delim].join(r) for r in rows]) + '\n'
    src = tm.Source(kind, text, prelines=prelines)
    if header == 'hasnames':
        want = {k: fields[k] if src.astext else fields[k].encode()
                for k in keys}
    what = '%d x %d table from %s, skip %d, %s, columns %s' % (
        nrows, ncols, kind, skip, header, sel)
    try:
        pack = read(src, delim, **kw)
        same(sorted(pack.data), sorted(keys), what + ': keys')
        cols = tm.expected(rows, delim != ',', False, src.astext)
        for k in keys:
            got = [tm.NAN if v != v else v for v in pack(k).tolist()]
            if got != cols[k]:
                i = next((i for i, (x, y) in enumerate(zip(got, cols[k]))
                          if x != y), min(len(got), len(cols[k])))
                expect(False, '%s: channel %d of %d rows differs from row '
                       '%d: %r, want %r', what, k, len(got), i,
                       str(got[i:i + 1])[:80], str(cols[k][i:i + 1])[:80])
        same(dict(pack.names), want, what + ': names')
        same(pack.fn, src.name, what + ': fn')
        same(pack.mask.tolist(), [True] * nrows, what + ': mask')
    finally:
        src.close()
    R.step()
    R.state((nrows, ncols, style, delim, comma, kind, skip, header, sel,
             debug, prelines))
    return (nrows, ncols, sel, header)


def big(R, shard, nshards, full):
    cases = []
    heads = [(None, 'all'), ('hasnames', 'odd'), ('names', 'reversed'),
             ('names', 'text'), ('hasnames', 'last'), (None, 'text'),
             ('hasnames', 'tail'), ('hasnames', 'third'), ('hasnames', 'all'),
             ('hasnames', 'reversed')]
    j = 0
    kinds = tm.BIGSOURCES
    for ncols in (4, 9, 10, 11, 12, 17, 27, 33, 65, 101, 129, 257, 300, 1025):
        for style in ('n', 'nt', 'tnn', 'ni', 'iin', 'itn', 'en', 'ei'):
            for header, sel in heads:
                for delim, comma in ((';', False), (',', False), (None, True),
                                     ('\t', True)):
                    if comma and 't' == style[0]:
                        continue
                    if 'e' in style and delim is None:
                        continue
                    j += 1
                    cases.append((2 if j % 2 else 5, ncols, style, delim,
                                  comma, kinds[j % len(kinds)], j % 3,
                                  header, sel, bool(j % 4 == 0),
                                  (1, 401, 8001)[j % 3]))
    for nrows in (9, 10, 11, 25, 26, 64, 100, 101, 257, 1000, 1025, 4097,
                  10001) + ((32769, 65537) if full else (33000,)):
        for style in ('n', 'nt', 'Nt'):
            for delim, comma in ((';', False), (',', False), (None, True)):
                if nrows > 5000 and style == 'Nt' and not full:
                    continue
                j += 1
                header, sel = heads[j % 10]
                cases.append((nrows, 3, style, delim, comma,
                              kinds[j % len(kinds)], j % 3, header, sel,
                              bool(j // 10 % 2), (1, 401, 8001)[j % 3]))
    for kind in kinds:
        for style in ('nT', 'nL', 'LN', 'NT'):
            for nrows, ncols in ((3, 2), (12, 3), (40, 30)):
                for pre in (1, 401, 8001):
                    j += 1
                    cases.append((nrows, ncols, style, ';', False, kind,
                                  j % 3) + heads[j % 10] +
                                 (bool(j % 2), pre))
        for skip in (5, 10, 26, 100, 257, 1000, 5000):
            for header, sel in heads:
                cases.append((3, 3, 'nt', ';', False, kind, skip, header,
                              sel, False, 1))
    try:
        for i, c in enumerate(cases):
            if i % nshards == shard:
                R.do(big_case, *c)
    finally:
        tm.cleanup()


# -------------------------------------------- characters in text fields

CHARS = [chr(i) for i in range(0x21, 0x7f)] + [
    '\x01', '\x1a', '\x1c', '\x1f', '\x7f', '\x85', '\xa0', '\xe5', '\xdf',
    '\u0130', '\u2028', '\u2029', '\ufeff', '\u4e2d', '\U0001f600']
FORMS = ['%s', '%sx', 'x%s', 'x%sy', '%s%s', 'x %s y', '%s 1', '1%s', '-%s']


def chars_case(R, ch, form, delim, kind, debug):
    """Whatever a text field holds is kept, in every position."""
    t = form.replace('%s', ch)
    for pos in range(3):
        for order in (0, 1):
            first = ['p', 'q', 'r']
            row = list(first)
            row[pos] = t
            rows = [row, first] if order else [first, row, ['s', 't', 'u'],
                                               row]
            if order and tm.isnum(t, delim != ','):
                continue
            text = render(rows, delim)
            src = tm.Source(kind, text)
            try:
                pack = read(src, delim, debug=debug)
                cols = tm.expected(rows, delim != ',', False, src.astext)
                tm.check_pack(pack, cols, {}, range(3), '%r from %s' % (
                    text, kind), src.name)
            finally:
                src.close()
            R.step()
    R.state((ch, form, delim, kind))
    return t


def enc_case(R, kind, enc, word, delim, strip):
    """Text outside ASCII, in the encoding given or, for a file name, in the
    default encoding when none is."""
    codec = enc if enc not in ('omitted', 'None') else \
        locale.getpreferredencoding()
    rows = [[word, '1.5', 'b' + word + 'c'], ['x', '', word * 40],
            [word * 3, '-2', 'y' + word]]
    text = render([['n' + word, word + 'm', word]] + rows, delim)
    try:
        raw = text.encode(codec)
    except UnicodeEncodeError:
        return None
    kw = {} if enc == 'omitted' else {'encoding': None if enc == 'None'
                                      else enc}
    astext = kind == 'path' or enc not in ('omitted', 'None')
    cols = tm.expected(rows, delim != ',', False, astext, codec)
    names = ['n' + word, word + 'm', word]
    if not astext:
        names = [x.encode(codec) for x in names]
    f = None
    try:
        if kind == 'bytes':
            arg = io.BytesIO(raw)
        else:
            arg = tm.put(raw)
            if kind == 'binfile':
                arg = f = io.open(arg, 'rb')
        pack = textpack(arg, delimiter=delim if kind == 'path' else
                        delim.encode('ascii'), hasnames=True,
                        stripstrings=strip, **kw)
        tm.check_pack(pack, cols, dict(enumerate(names)), range(3),
                      'textpack(%s of %r, %r)' % (kind, raw, kw),
                      '' if kind == 'bytes' else tm.scratch_path())
    finally:
        if f is not None:
            f.close()
    R.step()
    R.state((raw, kind, enc, strip))
    return kind, enc, delim


def encs(R):
    try:
        for word in ('\xc9t\xe9', '\u03a9', '\u4e2d\u6587', '\U0001f600',
                     '\xb0C', '\u20ac'):
            for enc in ('omitted', 'None', 'utf-8', 'latin-1', 'cp1252',
                        'iso8859-7', 'cp437', 'gbk'):
                for kind in ('path', 'bytes', 'binfile'):
                    for delim in (';', '\t', ',', '::'):
                        for strip in (False, True):
                            R.do(enc_case, kind, enc, word, delim, strip)
    finally:
        tm.cleanup()


def chars(R, delims, kinds, shard, nshards):
    i = 0
    try:
        for delim in delims:
            for ch in CHARS:
                if ch == delim or ch == delim[0]:
                    continue
                for form in FORMS:
                    for kind in kinds:
                        i += 1
                        if i % nshards == shard:
                            R.do(chars_case, ch, form, delim, kind,
                                 bool(i // 7 % 2))
    finally:
        tm.cleanup()


def bounds(tier):
    return ('all tables 1x1..3x2, 2x3 over <=%d cell values per kind, 7 '
            'delimiters, dot and comma, spread over 8 sources x line ends x '
            'blank lines x debug; full product of options (4 tables x '
            'delimiters x %s sources x skip x header mode x all column '
            'selections and orders x debug); converters x strip x columns; '
            '%d number literals x 5 delimiters x comma; tables of up to 1025 '
            'columns, 33000 (thorough 65537) rows, 40000-character cells, '
            '5000 skipped lines, stream positions to 100 kB, 10 sources; '
            '109 characters x 9 forms x every position of a text field' % (
                (4, '8', len(literals())) if tier == 'quick' else
                (5, '8', len(literals()))))


def tasks(tier):
    q = tier == 'quick'
    t = [('encs', ())]
    t += [('optsweep', ((';',) if q else (None, ';', '\t'), tm.STREAMS,
                        (0, 2), s, 8)) for s in range(8)]
    al = 4 if q else 5
    for delim in DELIMS:
        for comma in (False, True):
            if comma and delim == ',':
                continue
            shapes = [((1, 1), 'n'), ((1, 1), 't'), ((2, 1), 'n'),
                      ((3, 1), 'n'), ((2, 1), 't'),
                      ((1, 2), 'nt'), ((1, 3), 'tnn'), ((2, 2), 'nn'),
                      ((2, 2), 'tn'), ((2, 2), 'nt'), ((3, 2), 'nn'),
                      ((3, 2), 'nt'), ((2, 3), 'ntn'), ((2, 3), 'nnn')]
            if not q:
                shapes += [((3, 3), 'nnn'), ((3, 3), 'ntn'), ((4, 2), 'nn')]
            for shape, pat in shapes:
                cells = shape[0] * shape[1]
                if comma and 'n' not in pat:
                    continue
                k = 1 if cells < 5 else 8 if cells < 7 else 64
                a = al if cells < 7 else 3
                t += [('tables', (delim, comma, shape, pat, a, s, k))
                      for s in range(k)]
    t += [('big', (s, 16, not q)) for s in range(16)]
    t += [('chars', ((';', ',', '\t') if q else (';', ',', '\t', '|', '::'),
                     ('str', 'bytes', 'path') if q else tm.SOURCES, s, 8))
          for s in range(8)]
    ds = (None, ';', ',', '\t') if q else (None, ';', ',', '\t', '|', ' ',
                                          '::')
    t += [('optsweep', (ds, tm.SOURCES, (0, 2) if q else (0, 1, 2, 3),
                        s, 64)) for s in range(64)]
    t += [('headers', (tm.SOURCES, s, 8)) for s in range(8)]
    t += [('convs', (('str', 'bytes', 'bytesenc', 'path'), s, 8))
          for s in range(8)]
    t += [('numbers', (('str', 'bytes') if q else
                       ('str', 'bytes', 'path', 'bytesenc'), s, 16))
          for s in range(16)]
    t += [('bads', (('str', 'bytes', 'path'),)),
          ('blanks', (('str', 'bytes', 'path', 'stroff'),))]
    return t
