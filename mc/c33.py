"""C33: packs from files of any kind are ordinary and equal packs."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from core import expect, same
import packmodel as pm
import dbfmodel as dm
import xlsgen as g
import xlsxgen as xg
import biffgen as bg
from channelpack import (ChannelPack, textpack, lazy_textpack, dbfpack,
                         sheetpack)

PROP = 'C33'
ASSUMPTIONS = ['texts of one column have equal width (dbf pads them) and do '
               'not read as numbers; the first value of a column is not '
               'missing (text files tell types by the first line, which '
               'also has to show a decimal comma)',
               'numbers are compared by value: whole numbers of a dbf file '
               'are integers']

MORE = ['0', '0.5', '-0.5', '100000', '1e15', '99999.99', '-99999.99',
        '123456789.25', '0.0009765625', '0.1', '0.3', '-1', '2147483647',
        '-2147483648', '4294967296', '536870911', '536870912', '0.01',
        '1234.56', '-0.07', '65536', '255', '10', '1e-5', '']
WORDS = ['%s%s' % (a, b) for a in ('ab', '-x', 'T ', '. ', "it's", '"q"', '#',
                                   'Nan ', '(1)', 'a=b', '<&>', '{}')
         for b in ('', 'c' * 3, ' d')]
NUMS = ['1.5', '-2', '', '300', '0.25', '7', '-0.5', '12.75']
TEXTS = ['ab', 'Xy', 'q1', 'zz', '-a', 'T ']
NAN = pm.NAN
_dir = []


def scratch():
    if not _dir:
        _dir.append(tempfile.mkdtemp(prefix='cpmc33'))
    return _dir[0]


def cleanup():
    while _dir:
        shutil.rmtree(_dir.pop(), ignore_errors=True)


def make(types, nrows, base):
    """Columns of text cells."""
    cols = []
    for c, t in enumerate(types):
        if t in 'NT':
            pool = MORE if t == 'N' else WORDS
            step = 1 + c % 3
            col = [pool[(base + 5 * c + step * r) % len(pool)]
                   for r in range(nrows)]
            if t == 'N' and col[0] == '':
                col[0] = '1.5'
            if t == 'T':
                w = max(map(len, col))
                col = [x.ljust(w, '_') for x in col]
            cols.append(col)
            continue
        pool = {'n': NUMS, 'i': ['%d' % (3 * k - 4) for k in range(9)],
                't': TEXTS[:5]}[t]
        col = []
        k = base + 3 * c
        for r in range(nrows):
            v = pool[k % len(pool)]
            if r == 0 and v == '':
                v = '9'
            col.append(v)
            k += 1
        cols.append(col)
    return cols


def fields(types):
    """Names of <=10 letters, capitals and underscores, no digits."""
    return ['%s%s%s%s' % ('FtX'[i % 3], 'abcdefghijklmnop'[i // 3 % 16],
                          'pQr_'[(i + i // 48) % 4] + t,
                          ('', '_', '_TIMe')[i // 2 % 3] + '_' * (i == 0))
            for i, t in enumerate(types)]


def want(types, cols):
    return {c: [x if t in 'tT' else NAN if x == '' else float(x) for x in col]
            for c, (t, col) in enumerate(zip(types, cols))}


def textfile(types, cols, delim, comma, names):
    rows = [names] if names else []
    for r in range(len(cols[0])):
        rows.append([c[r].replace('.', ',') if comma and t not in 'tT' else c[r]
                     for t, c in zip(types, cols)])
    return '\n'.join(delim.join(r) for r in rows).encode('ascii') + b'\n'


def dbffile(types, cols, names):
    fs, raw = [], []
    for t, c, nm in zip(types, cols, names):
        if t in 'tT':
            fs.append((nm, b'C', max(map(len, c)), 0))
            raw.append(c)
        elif t == 'N':
            fs.append((nm, b'N', 20, 10))
            raw.append([x.rjust(20) for x in c])
        elif t == 'i' or t == 'n' and not any('.' in x for x in c):
            fs.append((nm, b'N', 6, 0))
            raw.append([x.rjust(6) for x in c])
        else:
            fs.append((nm, b'N', 9, 2))
            raw.append([('%.2f' % float(x) if x else '').rjust(9)
                        for x in c])
    # a deleted record in between
    rows = [list(r) for r in zip(*raw)]
    at = len(rows) // 2
    rows.insert(at, list(rows[0]))
    return dm.writeraw(fs, rows, (at,))


def cells(types, cols, names, first=0):
    for c, nm in enumerate(names):
        yield first, c, 't', nm
    for c, (t, col) in enumerate(zip(types, cols)):
        for r, x in enumerate(col):
            if x != '':
                yield first + 1 + r, c, t.lower(), x


def xls(types, cols, names):
    sst = sorted(set(x for _, _, t, x in cells(types, cols, names)
                     if t == 't'))
    out = b''
    for r, c, t, x in sorted(cells(types, cols, names)):
        out += (g.labelsst(r, c, 0, sst.index(x)) if t == 't'
                else g.number(r, c, 0, float(x)))
    return g.simple_doc(g.workbook([('S', out)], sst, (0,)))


def biff(version):
    def f(types, cols, names):
        w = bg.Writer(version)
        out = b''
        for r, c, t, x in sorted(cells(types, cols, names)):
            out += (w.label(r, c, 0, x) if t == 't'
                    else w.number(r, c, 0, float(x)))
        stream = w.book([('S', out)], dims=(len(cols[0]) + 1, len(cols)))
        return g.simple_doc(stream, 'Book') if version in ('50', '70') \
            else stream
    return f


def xlsx(types, cols, names):
    sst = sorted(set(x for _, _, t, x in cells(types, cols, names)
                     if t == 't'))
    rows = {}
    for r, c, t, x in sorted(cells(types, cols, names)):
        rows.setdefault(r, []).append(
            '<c r="%s"%s><v>%s</v></c>' % (
                (xg.addr(r, c), ' t="s"', sst.index(x)) if t == 't'
                else (xg.addr(r, c), '', x)))
    return xg.package([('S', xg.sheetxml([(' r="%d"' % (r + 1), rows[r])
                                          for r in sorted(rows)]))],
                      [xg.si(s) for s in sst])


FORMATS = {
    'text': (lambda t, c, n: textfile(t, c, ';', False, n), lambda p: textpack(
        p, delimiter=';', hasnames=True, encoding='ascii')),
    'comma': (lambda t, c, n: textfile(t, c, '\t', True, n), lambda p: textpack(
        p, delimiter='\t', skiprows=1, hasnames=True)),
    'names': (lambda t, c, n: textfile(t, c, ',', False, None), None),
    'lazy': (lambda t, c, n: textfile(t, c, ';', True, n), lazy_textpack),
    'dbf': (dbffile, dbfpack),
    'dbfsel': (dbffile, None),
    'xls': (xls, sheetpack),
    'biff4': (biff('40'), sheetpack),
    'biff5': (biff('50'), sheetpack),
    'xlsx': (xlsx, sheetpack),
    # the same with options that say where the table is
    'xlsname': (xls, lambda p: sheetpack(p, 'S')),
    'xlsxcell': (xlsx, None),
    'xlsat': (xls, None),
    'xlsxcols': (xlsx, None),
    'textcols': (lambda t, c, n: textfile(t, c, ';', False, n), None)}


SHEETS = ('xls', 'xlsx', 'biff4', 'biff5', 'xlsname', 'xlsxcell', 'xlsat',
          'xlsxcols')


def usable(fmt, types, cols):
    if fmt in ('text', 'comma', 'names', 'textcols') and len(types) == 1 and \
            '' in cols[0]:
        return False            # a blank line
    if fmt in SHEETS and not any(
            c[-1] for c in cols):
        return False            # nothing in the last row
    if fmt == 'lazy':
        return 't' not in types.lower() and all(x for c in cols for x in c) and any(
            '.' in c[-1] for c in cols)
    if fmt == 'comma':
        # the first line tells the decimal mark
        return any('.' in c[0] for c in cols) or not any(
            '.' in x for c in cols for x in c)
    return True


def reader(fmt, names):
    if fmt == 'names':
        return lambda p: textpack(p, delimiter=',',
                                  names=dict(enumerate(names)))
    if fmt == 'dbfsel':
        return lambda p: dbfpack(p, names[::-1])
    last = xg.addr(0, len(names) - 1)[:-1]
    if fmt == 'xlsxcell':
        return lambda p: sheetpack(p, 0, startcell='A1')
    if fmt == 'xlsat':
        return lambda p: sheetpack(p, 'S', 'A1', startcell='A2')
    if fmt == 'xlsxcols':
        return lambda p: sheetpack(p, 'S', usecols='A:' + last)
    if fmt == 'textcols':
        return lambda p: textpack(p, delimiter=';', hasnames=True,
                                  usecols=list(range(len(names))))
    return FORMATS[fmt][1]


def norms(a):
    return [float(v) if isinstance(v, int) and not isinstance(v, bool) else v
            for v in pm.nlist(a)]


def check(p, data, names, fns, what):
    same(sorted(p.data), sorted(data), what + ': keys')
    for k in data:
        same(norms(p(k)), data[k], what + ': channel %d' % k)
        same(norms(p(names[k])), data[k], what + ': channel %r' % names[k])
    same(dict(p.names), dict(enumerate(names)), what + ': names')
    same(p.fn, fns[0], what + ': fn')
    same(list(p.filenames), list(fns), what + ': filenames')
    same(p.mask.tolist(), [True] * len(data[0]), what + ': mask')
    expect(p.mask.dtype == bool, '%s: mask of %s', what, p.mask.dtype)
    same((p.nof, p.mindur), (None, None), what + ': settings')
    same(p.parts(), [0], what + ': parts')


def ext(fmt):
    return {'text': 'txt', 'comma': 'txt', 'names': 'csv', 'lazy': 'txt',
            'dbf': 'dbf', 'dbfsel': 'dbf', 'xlsx': 'xlsx',
            'xlsxcell': 'xlsx', 'xlsxcols': 'xlsx',
            'textcols': 'txt'}.get(fmt, 'xls')


def case(R, types, nrows, fmts, base):
    """Files of the given kinds with consecutive tables of one layout."""
    names = fields(types)
    tabs = [make(types, nrows[i % len(nrows)], base + 2 * i)
            for i in range(len(fmts))]
    what = 'tables %r as %r' % (tabs, fmts)
    for f, t in zip(fmts, tabs):
        if not usable(f, types, t):
            return None
    paths, packs, datas = [], [], []
    for i, (f, t) in enumerate(zip(fmts, tabs)):
        path = os.path.join(scratch(), 'f%d.%s' % (i, ext(f)))
        with open(path, 'wb') as fo:
            fo.write(FORMATS[f][0](types, t, names))
        paths.append(path)
    for i, (f, t) in enumerate(zip(fmts, tabs)):
        p = reader(f, names)(paths[i])
        expect(type(p) is ChannelPack, '%s: %s', what, type(p))
        packs.append(p)
        datas.append(want(types, t))
    for i, p in enumerate(packs):
        check(p, datas[i], names, [paths[i]], '%s: file %d' % (what, i))
    if len(packs) > 1:
        # settings of one pack leave the others alone
        packs[-1].mindur = 1
        packs[-1].nof = 'filter'
        packs[-1].mask = np.zeros(len(datas[-1][0]), dtype=bool)
        for i, p in enumerate(packs[:-1]):
            check(p, datas[i], names, [paths[i]], '%s: file %d' % (what, i))
        packs[-1].mindur = packs[-1].nof = None
        packs[-1].mask_reset()
        a = packs[0]
        total = {k: list(v) for k, v in datas[0].items()}
        for i in range(1, len(packs)):
            a.append_pack(packs[i])
            for k in total:
                total[k] += datas[i][k]
            check(a, total, names, paths[:i + 1], what + ': appended')
            check(packs[i], datas[i], names, [paths[i]],
                  '%s: file %d after appending it' % (what, i))
        n = len(total[0])
        m = [(3 * j + base) % 4 != 0 for j in range(n)]
        a.mask = np.array(m)
        for k in total:
            same(norms(a(k, nof='filter')),
                 [v for v, x in zip(total[k], m) if x],
                 what + ': filtered channel %d' % k)
            for j, (lo, hi) in enumerate(pm.runs(m)):
                same(norms(a(k, part=j)), total[k][lo:hi],
                     what + ': part %d of channel %d' % (j, k))
        recs = [tuple(norms(np.array(x, dtype=object)))
                for x in a.records(nof='filter')]
        same(recs, [tuple(total[k][j] for k in sorted(total))
                    for j in range(n) if m[j]], what + ': records')
    R.step(len(fmts))
    R.state((types, nrows, fmts, base))
    return types, nrows, fmts


def put(name, content):
    path = os.path.join(scratch(), name)
    with open(path, 'wb') as fo:
        fo.write(content)
    return path


def reread_case(R, types, nrows, fmts, base):
    """One path, written anew with another table and read again, first pack
    still in use."""
    names = fields(types)
    tabs = [make(types, nrows[i % len(nrows)], base + 2 * i)
            for i in range(len(fmts))]
    what = 'tables %r as %r at one path' % (tabs, fmts)
    if not all(usable(f, types, t) for f, t in zip(fmts, tabs)):
        return None
    got = []
    for f, t in zip(fmts, tabs):
        path = put('same.' + ext(f), FORMATS[f][0](types, t, names))
        for again in (0, 1):
            p = reader(f, names)(path)
            got.append((p, want(types, t), path))
            for q, d, fn in got:
                check(q, d, names, [fn], what)
    R.step(len(got))
    R.state(('reread', types, nrows, fmts, base))
    return types, nrows, fmts


def rereads(R):
    try:
        for a, b in itertools.product(sorted(FORMATS), repeat=2):
            if ext(a) != ext(b):
                continue
            for types in ('n', 'nit', 'tn'):
                for nrows in ((2,), (1, 3), (3, 1)):
                    R.do(reread_case, types, nrows, (a, b), 0)
                    R.do(reread_case, types, nrows, (a, b, a), 3)
    finally:
        cleanup()


# names with characters that mean something elsewhere
ODD = ['$HOME ${PATH}', '~', 'a~b *?[0]', '%HOME% {0} %s\u00e9', ' lead ',
       "it's \"q\" \\ #1;|&", '.hidden', '-', 'a.b.xlsx.txt.dbf', 'n\nl']


def odd_case(R, fmt, name, relative):
    types = 'nit'
    if fmt == 'lazy':
        types = 'ni'
    names = fields(types)
    tab = make(types, 3, 1)
    if not usable(fmt, types, tab):
        return None
    path = put(name + ('.' + ext(fmt) if len(name) > 3 else ''),
               FORMATS[fmt][0](types, tab, names))
    what = 'table %r as %s in %r' % (tab, fmt, path)
    if not relative:
        check(reader(fmt, names)(path), want(types, tab), names, [path], what)
    else:
        cwd = os.getcwd()
        os.chdir(os.path.dirname(path))
        try:
            for p in (os.path.join('.', os.path.basename(path)),) + (
                    (os.path.basename(path),) if name != '~' else ()):
                check(reader(fmt, names)(p), want(types, tab), names, [p],
                      what)
        finally:
            os.chdir(cwd)
    R.step()
    R.state((fmt, name, relative))
    return fmt, name, relative


def odds(R):
    try:
        for fmt in sorted(FORMATS):
            for name in ODD:
                for rel in (0, 1):
                    R.do(odd_case, fmt, name, rel)
    finally:
        cleanup()


def missing_case(R, fmt, pattern, ncols):
    """Numbers missing anywhere, except in the first row of a text file."""
    types = 'n' * ncols
    top = fmt not in SHEETS + ('dbf', 'dbfsel')
    nrows = top + len(pattern) // ncols
    cols = [['%d.5' % (10 * c + r) if top and r == 0 or not
             pattern[(r - top) * ncols + c] else '' for r in range(nrows)]
            for c in range(ncols)]
    if not usable(fmt, types, cols):
        return None
    names = fields(types)
    path = put('m.' + ext(fmt), FORMATS[fmt][0](types, cols, names))
    check(reader(fmt, names)(path), want(types, cols), names, [path],
          'table %r as %s' % (cols, fmt))
    R.step()
    R.state((fmt, pattern, ncols))
    return fmt, pattern, ncols


def missings(R, ncols, nrows):
    try:
        for fmt in sorted(FORMATS):
            for pat in itertools.product((0, 1), repeat=ncols * nrows):
                R.do(missing_case, fmt, pat, ncols)
    finally:
        cleanup()


def bigs(R, shapes, shard, nshards):
    try:
        i = 0
        for types, nrows in shapes:
            for fmt in sorted(FORMATS):
                i += 1
                if i % nshards == shard:
                    R.do(case, types, (nrows,), (fmt,), 0)
                    if nrows < 1000:
                        R.do(case, types, (nrows, 3),
                             (fmt, 'xlsx', 'dbf', fmt), 1)
    finally:
        cleanup()


def run(R, nf, shapes, bases, shard, nshards):
    i = 0
    try:
        for fmts in itertools.product(sorted(FORMATS), repeat=nf):
            for types, nrows in shapes:
                for base in bases:
                    i += 1
                    if i % nshards == shard:
                        R.do(case, types, nrows, fmts, base)
    finally:
        cleanup()


def bounds(tier):
    return ('tables of <=3 columns of decimal numbers, whole numbers and text '
            'and <=%d rows in 15 kinds of files and calls; all sequences of 2 files, '
            'all sequences of 3 files of 2 layouts, read and appended; one '
            'path written anew; all patterns of <=6 missing numbers; up to '
            '120 columns and 1000 rows' %
            (5 if tier == 'quick' else 8))


def tasks(tier):
    q = tier == 'quick'
    one = [(''.join(t), (n,)) for k in (1, 2, 3)
           for t in itertools.product('nit', repeat=k)
           for n in range(1, 6 if q else 9)]
    t = [('run', (1, one, (0, 1, 2, 3, 5), s, 4)) for s in range(4)]
    two = [(x, n) for x in (('n', 'i', 't', 'nt', 'tn', 'ni', 'nit') if q else
                            [''.join(t) for k in (1, 2, 3)
                             for t in itertools.product('nit', repeat=k)])
           for n in ((1,), (3, 1), (2, 4))]
    t += [('run', (2, two, (0, 1) if q else (0, 1, 2, 3), s, 8))
          for s in range(8)]
    t += [('rereads', ()), ('odds', ()), ('missings', (1, 5)), ('missings', (2, 3)),
          ('missings', (3, 2 if q else 3))]
    big = [('NT' * 15, 20), ('N' * 100, 3), ('TNi' * 33, 5), ('N', 300),
           ('NTi', 257), ('iT', 1000), ('N', 30), ('NN', 40), ('TT', 40),
           ('N' * 7, 26), ('T' * 120, 2)]
    if not q:
        big += [('Ni', 9000), ('TN', 5000)] + [
            ('NTi' * k, n) for k in (1, 2, 5) for n in range(1, 60)]
    t += [('bigs', (big, s, 16)) for s in range(16)]
    three = [('nit', (2, 1, 3)), ('nn', (2, 1))]
    if not q:
        three += [('tn', (1, 3)), ('i', (1, 2, 3)), ('tt', (2,))]
    t += [('run', (3, three, (0,) if q else (0, 1, 3), s, 8))
          for s in range(8)]
    return t
