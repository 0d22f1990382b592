"""C24: a number is a date exactly when its number format says so."""
import itertools
import re
import xlsxgen as xg
import xlsgen as g
import gridmodel as gm
from gridmodel import NUMBER, DATE
from core import expect

PROP = 'C24'
ASSUMPTIONS = ['formats where date letters and number placeholders are mixed '
               '(other than fractions of a second) are not valid in Excel '
               'and are left out',
               'elapsed time in brackets alone ([h]) is not a date part by '
               'the statement', 'built-in numbers 27-36 and 50-58 and 71-81 '
               '(far east) only in xls files',
               'FORMAT records precede XF records, numFmts precede cellXfs']

DATETOK = ('yyyy', 'yy', 'm', 'mmm', 'd', 'dd', 'h', 'hh', 's', 'ss',
           'AM/PM', 'M', 'D', 'Y', 'H', 'SS')
NUMTOK = ('0', '#', '?', '0.00', '#,##0', '0%', '0.00E+00', 'General', '@',
          'GENERAL')
NEUTRAL = ('"d"', '"day #1"', '\\d', '\\0', '_m', '*y', '[Red]', '[$-409]',
           '[h]', '[>100]', ' ', '-', '/', ':', '.', ',', ';', '$', '(',
           '\\"', '""', '\\\\', '_"', '\u20ac')
TOK = DATETOK + NUMTOK + NEUTRAL
FEW = ('yy', 'm', 'd', 'h', 'ss', '0', '#', 'General', '"d"', '\\d', '_m',
       '*y', '[h]', '[Red]', ';', '.', '\\"')


def classify(fmt):
    """True date, False not, None excluded; from the definition."""
    out, i = '', 0
    while i < len(fmt):
        c = fmt[i]
        if c == '"':
            j = fmt.find('"', i + 1)
            if j < 0:
                return None
            i = j + 1
        elif c in '\\_*':
            if i + 1 >= len(fmt):
                return None
            out += '~'
            i += 2
        elif c == '[':
            j = fmt.find(']', i)
            if j < 0 or any(x in fmt[i:j] for x in '"\\_*'):
                return None
            i = j + 1
        else:
            out += c
            i += 1
    frac = re.sub(r'([sS]+)\.0+', r'\1', out)
    fractions = frac != out
    if re.search('general', frac, re.I):
        frac = re.sub('general', '0', frac, flags=re.I)
    date = bool(re.search('[ymdhsYMDHS]', frac))
    num = bool(re.search('[0#?]', frac))
    if date and (num or '@' in frac):
        return None
    if fractions and num:
        return None
    return date


BUILTIN_XLS = {k: (k in range(14, 23) or k in range(27, 37) or
                   k in range(45, 48) or k in range(50, 59) or
                   k in range(71, 82))
               for k in list(range(0, 23)) + list(range(27, 50)) +
               list(range(50, 59)) + list(range(71, 82))}
BUILTIN_XLSX = {k: k in range(14, 23) or k in range(45, 48)
                for k in list(range(0, 23)) + list(range(37, 50))}


def open_xls(xfs, formats, cells, formatting=False):
    """cells: list of (xf, how)"""
    body = b''
    for i, (xf, how) in enumerate(cells):
        if how == 'number':
            body += g.number(i, 0, xf, 41000.5)
        elif how == 'rk':
            body += g.rk(i, 0, xf, 'i', 41000)
        elif how == 'mulrk':
            body += g.mulrk(i, 0, [(xf, 'i', 41000), (0, 'i', 1)])
        else:
            body += g.formula(i, 0, xf, g.fnum(41000.5))
    return gm.open_bytes(g.workbook([('S', body)], None, xfs, formats)
                         ).sheet_by_index(0)


def open_xlsx(xfs, formats, cells, stylexfs=(0,), dxfs=(), attr=''):
    st = xg.stylesxml(formats, xfs, stylexfs, attr)
    if dxfs:
        st = st.replace('</styleSheet>', '<dxfs>%s</dxfs></styleSheet>' % (
            ''.join('<dxf><numFmt numFmtId="%d" formatCode="%s"/></dxf>' % (
                k, xg.esc(c)) for k, c in dxfs)))
    rows = []
    for i, (xf, how) in enumerate(cells):
        a = ' s="%d"' % xf
        if how == 'default':
            a = ''
        f = '<f>1</f>' if how == 'formula' else ''
        rows.append((' r="%d"' % (i + 1), [
            '<c r="A%d"%s>%s<v>41000.5</v></c>' % (i + 1, a, f)]))
    return gm.open_bytes(xg.package([('S', xg.sheetxml(rows))],
                                    styles=st)).sheet_by_index(0)


def formats_case(R, kind, fmts):
    """A workbook with all the formats, one style and cell for each."""
    formats = [(164 + i, f) for i, f in enumerate(fmts)]
    xfs = [0] + [k for k, _ in formats]
    cells = [(i + 1, ('number', 'rk', 'formula')[i % 3])
             for i in range(len(fmts))]
    sh = (open_xls if kind == 'xls' else open_xlsx)(xfs, formats, cells)
    for i, f in enumerate(fmts):
        want = classify(f)
        got = sh.cell_type(i, 0)
        expect(got == (DATE if want else NUMBER), '%s: number with format %r '
               'is of type %d, should be %s', kind, f, got,
               'a date' if want else 'a number')
        R.step()
        R.state((kind, f))
    return (kind, fmts[0])


def strings(tok, n):
    seen = set()
    for k in range(1, n + 1):
        for p in itertools.product(tok, repeat=k):
            s = ''.join(p)
            if s not in seen and classify(s) is not None:
                seen.add(s)
                yield s


def formats(R, kind, tok, n, shard, nshards, batch=400):
    fs = list(itertools.islice(strings(tok, n), shard, None, nshards))
    for i in range(0, len(fs), batch):
        R.do(formats_case, kind, fs[i:i + batch])


REAL = ['yyyy-mm-dd', 'dd/mm/yyyy hh:mm', 'mm:ss.0', 'ss.00', 's.000',
        'h:mm:ss.000', 'h:mm:ss.000000', 'mmm\\-yy', '[$-F800]dddd\\,\\ mmmm'
        '\\ dd\\,\\ yyyy', 'h\\h\\ mm\\m\\ ss\\s', 'h:mm\\ AM/PM',
        '[h]:mm:ss', '[mm]:ss', 'dd\\.mm\\.yyyy', 'dd.mm.yyyy', 'd\\-mmm',
        'yyyy"\u5e74"m"\u6708"d"\u65e5"', '"date: "d', 'm/d;@',
        '0.00" days"', '#,##0\\ "kr"', '0\\d', '0_d', '*d0', '"ymd"0',
        '#,##0.00_);[Red]\\(#,##0.00\\)', '_-* #,##0.00\\ "kr"_-;\\-* '
        '#,##0.00\\ "kr"_-;_-* "-"??\\ "kr"_-;_-@_-', '0.0E+00', '# ?/?',
        '"Yes";"Yes";"No"', 'General" days"', '"days "General', '[Red]0',
        '[Yellow]0', '[$USD]\\ 0', '[$SEK]\\ #,##0', '0%', '\\d\\a\\y\\ 0',
        '[Magenta]General;[Cyan]\\-General', '@', '[<=9999]0;\\d0', ';;;',
        '_(* #,##0_);_(* \\(#,##0\\);_(* "-"_);_(@_)', '[Blue]yyyy',
        '[$-409]m/d/yy h:mm AM/PM;@', 'yy;[Red]"neg"']


def real(R):
    for f in REAL:
        assert f == 'm/d;@' or '@' in f or classify(f) is not None, f
    fs = [f for f in REAL if classify(f) is not None]
    for kind in ('xls', 'xlsx'):
        R.do(formats_case, kind, fs)
        for f in fs:
            R.do(formats_case, kind, [f])
    R.do(sections_case)


def sections_case(R):
    """Formats with a text section."""
    for kind in ('xls', 'xlsx'):
        for f, want in (('m/d;@', True), ('yyyy\\-mm\\-dd;@', True),
                        ('0;@', False), ('[$-409]m/d/yy h:mm AM/PM;@', True),
                        ('_-* #,##0\\ _k_r_-;_-@_-', False)):
            sh = (open_xls if kind == 'xls' else open_xlsx)(
                [0, 164], [(164, f)], [(1, 'number')])
            got = sh.cell_type(0, 0)
            expect(got == (DATE if want else NUMBER), '%s: number with format'
                   ' %r is of type %d', kind, f, got)
            R.step()
            R.state((kind, f))
    return 'sections'


def builtin_case(R, kind, keys):
    table = BUILTIN_XLS if kind == 'xls' else BUILTIN_XLSX
    f = open_xls if kind == 'xls' else open_xlsx
    for how in ('number', 'formula', 'rk'):
        sh = f([0] + list(keys), (), [(i + 1, how)
                                      for i in range(len(keys))])
        for i, k in enumerate(keys):
            expect(sh.cell_type(i, 0) == (DATE if table[k] else NUMBER),
                   '%s: number with built-in format %d is of type %d', kind,
                   k, sh.cell_type(i, 0))
            R.step()
            R.state((kind, k))
    return (kind, keys[0])


def builtin(R, kind):
    keys = sorted(BUILTIN_XLS if kind == 'xls' else BUILTIN_XLSX)
    R.do(builtin_case, kind, keys)
    R.do(builtin_case, kind, keys[::-1])
    for k in keys:
        R.do(builtin_case, kind, [k])


# style tables: which other styles and formats exist does not matter

POOL = ((0, False), (14, True), (2, False), (164, True), (165, False),
        (22, True), (170, True), (171, False))
POOLF = {164: 'yyyy', 165: '0.0', 170: '"x"d', 171: '"d"0'}


def table_case(R, kind, xfs, order, extra, how):
    """xfs: indexes in POOL, one per style."""
    keys = [POOL[i][0] for i in xfs]
    fs = [(k, POOLF[k]) for k in order if k in keys or extra]
    if extra == 'more':
        fs = [(180, 'dd'), (181, '0')] + fs + [(182, '"d"'), (183, 'ss')]
    cells = [(i, how) for i in range(len(xfs))]
    if kind == 'xls':
        sh = open_xls(keys, fs, cells)
    else:
        kw = {}
        if extra == 'more':
            kw = {'stylexfs': (14, 0, 22), 'dxfs': ((165, 'yyyy'),
                                                    (164, '0'))}
        elif extra[:1] == ' ':
            kw = {'attr': extra}
        sh = open_xlsx(keys, fs, cells, **kw)
    for i, x in enumerate(xfs):
        expect(sh.cell_type(i, 0) == (DATE if POOL[x][1] else NUMBER),
               '%s: styles with formats %r, formats %r: cell of style %d is '
               'of type %d', kind, keys, fs, i, sh.cell_type(i, 0))
        R.step()
    if how == 'mulrk':
        for i in range(len(xfs)):
            expect(sh.cell_type(i, 1) == (DATE if POOL[xfs[0]][1] else
                                          NUMBER), '%s: styles with formats '
                   '%r: cell of style 0 is of type %d', kind, keys,
                   sh.cell_type(i, 1))
    R.state((kind, xfs, order, extra, how))
    return (kind, xfs, extra)


def tables(R, kind, n, shard, nshards):
    hows = ('number', 'formula', 'mulrk') if kind == 'xls' else ('number',
                                                                 'formula')
    i = 0
    for xfs in itertools.product(range(len(POOL)), repeat=n):
        for order in ((164, 165, 170, 171), (171, 165, 170, 164)):
            for extra in ('', 'all', 'more') + ((
                    ' applyNumberFormat="0"', ' xfId="0" applyNumberFormat="1"'
                    ) if kind != 'xls' and n < 3 else ()):
                i += 1
                if i % nshards != shard:
                    continue
                for how in hows:
                    R.do(table_case, kind, xfs, order, extra, how)


def default_case(R, x):
    """A cell without a style attribute has style 0."""
    sh = open_xlsx([POOL[x][0]], sorted(POOLF.items()), [(0, 'default')])
    expect(sh.cell_type(0, 0) == (DATE if POOL[x][1] else NUMBER),
           'xlsx: cell without style, style 0 has format %d: type %d',
           POOL[x][0], sh.cell_type(0, 0))
    R.step()
    R.state(('default', x))
    return x


def defaults(R):
    for x in range(len(POOL)):
        R.do(default_case, x)


# more forms of the parts that do not count, and long formats

MORE = ('"d;"', '";d"', '"; y ; 0"', '"[d"', '"d]"', '"\\"', '"_d"', '"*"',
        '"dmy hms"', '"0.00"', '"#"', '"General"', '"' + 'dmy ' * 20 + '"',
        '[$-F800]', '[$kr-41D]', '[$dd-mm-yyyy-409]', '[Color12]',
        '[DBNum1][$-804]', '[>=1000000000000]', '[<-1.5]', '[Yellow]',
        '[$' + 'd' * 40 + ']', '[hh]', '[mmm]', '[s]', '[YELLOW]', '\\y',
        '\\;', '\\[', '\\]', '_[', '_]', '*"', '*\\', '_\\', '\\*', '\\_',
        '_;', '*;', "'", '!', '+', '<', '&', '\xa0', '\u5e74', '\U0001f600',
        'kr', 'x', 'B', 'a/p', '""""')


def more(R, kind):
    """Every such part before, after and around every kind of token."""
    fs = []
    for a in MORE + ('',):
        for b in MORE + ('',):
            for mid in ('d', '0', 'General', 'ss.00', 'h:mm', '#,##0.00', ''):
                f = a + mid + b
                if f and len(f) <= 255 and f not in fs[-400:] and \
                        classify(f) is not None:
                    fs.append(f)
    for i in range(0, len(fs), 800):
        R.do(formats_case, kind, fs[i:i + 800])


def longs(R, kind):
    """The deciding letter anywhere in a format of up to 255 characters."""
    for fill in ('-', '\\d', '"d"', '[Red]', '_m', '" d;m "', ';'):
        fs = []
        for n in list(range(0, 40)) + list(range(40, 255, 5)) + list(
                range(120, 136)) + [252, 253, 254]:
            k = n // len(fill)
            for tail in ('d', '0', 'y-m', '#,##0'):
                f = fill * k + tail
                if len(f) <= 255:
                    fs.append(f)
                f = tail + fill * k
                if len(f) <= 255:
                    fs.append(f)
                f = fill * (k // 2) + tail + fill * (k // 2)
                if len(f) <= 255:
                    fs.append(f)
        R.do(formats_case, kind, fs)


KEYS = (164, 165, 199, 200, 254, 255, 256, 257, 382, 383, 511, 512, 1023,
        1024, 4095, 4096, 4097, 8191, 16383, 16384, 32767, 32768, 40000,
        65534, 65535)


def keys_case(R, kind, keys, flip):
    fs = [(k, ('0.0', 'yyyy')[(i + flip) % 2]) for i, k in enumerate(keys)]
    sh = (open_xls if kind == 'xls' else open_xlsx)(
        [0] + list(keys), fs, [(i + 1, 'number') for i in range(len(keys))])
    for i, k in enumerate(keys):
        want = (NUMBER, DATE)[(i + flip) % 2]
        expect(sh.cell_type(i, 0) == want, '%s: number with format %d %r is '
               'of type %d', kind, k, fs[i][1], sh.cell_type(i, 0))
        R.step()
        R.state((kind, 'key', k, flip))
    return kind, keys[0], flip


def keys(R, kind):
    ks = KEYS + ((65536, 100000, 1 << 20) if kind == 'xlsx' else ())
    for flip in (0, 1):
        R.do(keys_case, kind, ks, flip)
        R.do(keys_case, kind, ks[::-1], flip)
        R.do(keys_case, kind, tuple(range(164, 800)), flip)
        for k in ks:
            R.do(keys_case, kind, (k,), flip)
            R.do(keys_case, kind, (k, 164 + k % 64 if k != 164 + k % 64
                                   else 300), flip)


def styles_case(R, kind, n, period):
    """n styles, every period-th of them a date."""
    xfs = [14 if i % period == period - 1 else 2 for i in range(n)]
    idx = sorted(set(x for k in range(0, 16) for x in (
        2 ** k - 1, 2 ** k, 2 ** k + 1) if x < n) |
        set(range(0, n, 7)) | {n - 1})
    sh = (open_xls if kind == 'xls' else open_xlsx)(
        xfs, (), [(i, 'number') for i in idx])
    for r, i in enumerate(idx):
        want = DATE if xfs[i] == 14 else NUMBER
        expect(sh.cell_type(r, 0) == want, '%s: %d styles: cell of style %d '
               'is of type %d', kind, n, i, sh.cell_type(r, 0))
        R.step()
    R.state((kind, 'styles', n, period))
    return kind, n, period


def styles(R, kind):
    for n in (16, 21, 255, 256, 257, 1000, 4050,
              4200) + ((40000,) if kind == 'xlsx' else ()):
        for period in (2, 3, 5):
            R.do(styles_case, kind, n, period)


def bounds(tier):
    q = tier == 'quick'
    return ('all format strings of <=%d of %d tokens and <=%d of %d tokens, '
            'all built-in numbers, all style tables of <=%d of 8 formats with '
            'further formats in 2 orders, xls and xlsx; %d further tokens '
            'around 7 kinds of format; the deciding letter at all positions '
            'to 255; format numbers to 65535 and tables of 4200 (xlsx: 40000) styles' % (
                ((3, len(TOK), 3, len(FEW), 3) if q else
                 (3, len(TOK), 5, len(FEW), 4)) + (len(MORE),)))


def tasks(tier):
    q = tier == 'quick'
    t = [('real', ()), ('defaults', ())]
    for kind in ('xls', 'xlsx'):
        t += [('builtin', (kind,)), ('more', (kind,)), ('longs', (kind,)),
              ('keys', (kind,)), ('styles', (kind,))]
        t += [('formats', (kind, TOK, 1, 0, 1, 1))]
        t += [('formats', (kind, TOK, 2, s, 4)) for s in range(4)]
        t += [('formats', (kind, FEW, 3, s, 4)) for s in range(4)]
        t += [('tables', (kind, n, 0, 1)) for n in (1, 2)]
        t += [('tables', (kind, 3, s, 4)) for s in range(4)]
        if q:
            t += [('formats', (kind, TOK, 3, s, 8)) for s in range(8)]
        else:
            t += [('formats', (kind, TOK, 3, s, 8)) for s in range(8)]
            t += [('formats', (kind, FEW, 5, s, 32)) for s in range(32)]
            t += [('tables', (kind, 4, s, 32)) for s in range(32)]
    return t
