"""C34: what a workbook says about itself is reported as stored."""
import io
import itertools
import struct
from core import expect, same
import xlsgen as g
import biffgen as bg
import xlsxgen as xg
from channelpack import xlrd

PROP = 'C34'
ASSUMPTIONS = ['one CODEPAGE record at most, of a single byte code page for '
               'files before Excel 97',
               'files of Excel 2 to 4 have the user name after the code page']

OLD = bg.VERSIONS
BIFF = {'20': 20, '21': 21, '30': 30, '40': 40, '4W': 45, '50': 50, '70': 70}
PAGES = {None: 'latin-1', 1252: 'cp1252', 1251: 'cp1251', 437: 'cp437',
         850: 'cp850', 1250: 'cp1250', 1253: 'cp1253', 10000: 'mac_roman',
         10007: 'mac_cyrillic', 32768: 'mac_roman', 32769: 'cp1252'}
USERS = ['', 'A', 'Jo Smith', 'a  b', ' lead', 'x' * 31, 'end ', 'é', 'Ж1',
         'Ωmega', 'x' * 30, '\x01', 'naïve café']
COUNTRIES = [None, (1, 1), (46, 1), (1, 46), (972, 7), (0, 86), (65535, 256)]


def op(content, **kw):
    return xlrd.open_workbook(file_contents=content, logfile=io.StringIO(),
                              **kw)


def wa8(user, wide, fill):
    raw = struct.pack('<HB', len(user), 1 if wide else 0) + user.encode(
        'utf-16-le' if wide else 'latin-1')
    return g.rec(0x5C, raw + fill * ((112 - len(raw)) // len(fill)))


def wa(user, enc):
    b = user.encode(enc)
    return g.rec(0x5C, struct.pack('<B', len(b)) + b.ljust(31))


def country(c):
    return b'' if c is None else g.rec(0x8C, struct.pack('<HH', *c))


def cellcheck(b, what):
    same(b.sheet_by_index(0).cell_value(0, 0), 1.5, what + ': cell')


def case8(R, user, wide, c, datemode, codepage, order, opt):
    """A workbook of Excel 97."""
    parts = {'u': b'' if user is None else wa8(user, wide, b' '),
             'c': country(c),
             'd': b'' if datemode is None else
             g.rec(0x22, struct.pack('<H', datemode)),
             'p': b'' if codepage is None else
             g.rec(0x42, struct.pack('<H', codepage))}
    d = g.workbook([('S', g.number(0, 0, 0, 1.5)), ('T', b'')], [],
                   first=b''.join(parts[x] for x in order))
    what = 'xls user %r wide %r countries %r datemode %r codepage %r %s %r' % (
        user, wide, c, datemode, codepage, order, opt)
    b = op(g.simple_doc(d) if opt.pop('doc', False) else d, **opt)
    same(b.biff_version, 80, what + ': version')
    same(b.user_name, (user or '').rstrip(), what + ': user name')
    same(tuple(b.countries), c or (0, 0), what + ': countries')
    same(b.datemode, datemode or 0, what + ': datemode')
    same(b.codepage, codepage or 1200, what + ': codepage')
    cellcheck(b, what)
    same((tuple(b.countries), b.datemode, b.user_name),
         (c or (0, 0), datemode or 0, (user or '').rstrip()),
         what + ': after reading')
    R.step()
    R.state((user, wide, c, datemode, codepage, order))
    return user, wide, c, datemode, codepage, order


def new(R, shard, nshards):
    i = 0
    orders = [''.join(o) for o in itertools.permutations('ucdp')]
    opts = [{}, {'on_demand': True}, {'formatting_info': True},
            {'doc': True}]

    def one(*a):
        nonlocal i
        i += 1
        if i % nshards == shard:
            R.do(case8, *a)
    for user in [None] + USERS + ['u' * k for k in (54, 100, 109)]:
        for wide in (False, True):
            if user is None and wide or wide and len(user) > 54 or (
                    not wide and user and max(user) > '\xff'):
                continue
            for c in COUNTRIES[:3]:
                for dm in (None, 0, 1):
                    for o in orders:
                        one(user, wide, c, dm, 1200, o, opts[i % 4].copy())
    for c in COUNTRIES:
        for dm in (None, 0, 1):
            for cp in (None, 1200):
                for opt in opts:
                    for u in (None, 'User'):
                        one(u, False, c, dm, cp, 'ucdp', opt.copy())


def caseold(R, version, user, page, c, where, datemode, opt):
    """A file of an older version; where: the country record is with the
    globals, with the sheets, or with both."""
    enc = PAGES[page]
    if user is not None:
        try:
            user.encode(enc)
        except UnicodeEncodeError:
            return None
    # bare: without format and style records
    kw = {}
    if 'bare' in opt:
        kw['formats'] = ()
        if version not in bg.B2:
            kw['xfs'] = ()
    w = bg.Writer(version, enc, **kw)
    u = b'' if user is None else wa(user, enc)
    cp = b'' if page is None else g.rec(0x42, struct.pack('<H', page))
    dm = b'' if datemode is None else g.rec(0x22, struct.pack('<H', datemode))
    what = 'biff %s user %r page %r countries %r in %s datemode %r %r' % (
        version, user, page, c, where, datemode, opt)
    sheets = [('S', w.number(0, 0, 0, 1.5))]
    if version in ('50', '70'):
        # the user name comes before the code page
        if 'late' in opt:
            first = cp + dm + u
        else:
            first = u + cp + dm
        d = w.book(sheets + [('T', b'')], None,
                   first=first, extra=country(c) if 'g' in where else b'',
                   insheet=country(c) if 's' in where else b'')
    else:
        d = w.book(sheets, None,
                   first=cp + dm + u, extra=country(c))
    b = op(d, **{k: v for k, v in opt.items() if k not in ('late', 'bare')})
    same(b.biff_version, BIFF[version], what + ': version')
    same(b.user_name, (user or '').rstrip(), what + ': user name')
    # version 4 books tell it in the sheet
    same(tuple(b.countries), c or (0, 0), what + ': countries')
    same(b.datemode, datemode or 0, what + ': datemode')
    same(b.codepage, page, what + ': codepage')
    same(b.encoding is not None and 'é'.encode('ascii', 'ignore').decode(
        b.encoding), '', what + ': encoding')
    cellcheck(b, what)
    same(b.user_name, (user or '').rstrip(), what + ': user name after')
    R.step()
    R.state((version, user, page, c, where, datemode))
    return version, user, page, c, where, datemode


def olds(R, version):
    for user in [None] + USERS:
        for page in sorted(PAGES, key=str):
            for dm in (None, 0, 1):
                R.do(caseold, version, user, page, None, 'g', dm, {})
                R.do(caseold, version, user, page, None, 'g', dm,
                     {'bare': 1})
                if version in ('50', '70'):
                    R.do(caseold, version, user, page, None, 'g', dm,
                         {'late': 1})
                    R.do(caseold, version, user, page, (1, 46), 'g', dm,
                         {'on_demand': True})
    for c in COUNTRIES:
        for where in (('g', 's', 'gs') if version in ('50', '70') else 'g'):
            for user in (None, 'me'):
                R.do(caseold, version, user, 1252, c, where, 1, {})


CP = ('http://schemas.openxmlformats.org/package/2006/metadata/'
      'core-properties')
DC = 'http://purl.org/dc/elements/1.1/'
DCT = 'http://purl.org/dc/terms/'
KEYS = ('last_modified_by', 'creator', 'created', 'modified')
TAGS = {'last_modified_by': 'cp:lastModifiedBy', 'creator': 'dc:creator',
        'created': 'dcterms:created', 'modified': 'dcterms:modified',
        'title': 'dc:title', 'subject': 'dc:subject', 'cat': 'cp:category',
        'desc': 'dc:description', 'rev': 'cp:revision',
        'key': 'cp:keywords'}


def corexml(props, prefixes):
    a, b, c = prefixes
    s = ''.join('<%s>%s</%s>' % (TAGS[k], xg.esc(v), TAGS[k]) if v is not None
                else '<%s/>' % TAGS[k] for k, v in props)
    for old, newp in (('cp:', a), ('dc:', b), ('dcterms:', c)):
        s = s.replace('<' + old, '<' + newp).replace('</' + old, '</' + newp)
    return ('<?xml version="1.0" encoding="UTF-8"?><%scoreProperties '
            'xmlns%s="%s" xmlns%s="%s" xmlns%s="%s">%s</%scoreProperties>' % (
                a, ':' + a[:-1] if a else '', CP, ':' + b[:-1], DC,
                ':' + c[:-1], DCT, s, a))


def casex(R, props, prefixes, fname, order, datemode, opt):
    """props: None for no core properties or list of (key, text)."""
    parts = [] if props is None else [(fname, corexml(props, prefixes))]
    d = xg.package([('S', xg.sheetxml([(' r="1"', [
        '<c r="A1"><v>1.5</v></c>'])]))], parts=parts, order=order,
        date1904=datemode)
    what = 'xlsx properties %r prefixes %r %s %s date1904 %r %r' % (
        props, prefixes, fname, order, datemode, opt)
    b = op(d, **opt)
    want = {k: v or '' for k, v in props or () if k in KEYS}
    got = dict(b.props)
    same({k: got.get(k, '') for k in KEYS}, {k: want.get(k, '') for k in KEYS},
         what + ': properties')
    same(b.user_name or '', want.get('last_modified_by') or
         want.get('creator') or '', what + ': user name')
    same(b.datemode, {None: 0, '0': 0, 'false': 0, '1': 1, 'true': 1}
         [datemode], what + ': datemode')
    cellcheck(b, what)
    R.step()
    R.state((props, prefixes, fname, order, datemode))
    return props, prefixes, fname, order, datemode


PRE = [('cp:', 'dc:', 'dcterms:'), ('', 'dc:', 'dcterms:'),
       ('a:', 'b:', 'c:'), ('cp:', 'x:', 'y:')]
FN = ['docProps/core.xml', 'docprops/core.xml', 'DOCPROPS/CORE.XML']
XUSERS = ['Jo', None, '', 'Été & <Co>', '_x0041_', 'a  b', '0', 'Ж' * 60]


def books(R):
    R.do(casex, None, PRE[0], FN[0], None, None, {})
    other = [('title', 'T'), ('subject', 'S'), ('cat', 'C'), ('desc', 'D'),
             ('rev', '3'), ('key', 'k')]
    stamps = {'created': '2020-01-02T03:04:05Z',
              'modified': '2021-12-31T23:59:59Z'}
    i = 0
    for subset in itertools.product((0, 1), repeat=4):
        keys = [k for k, s in zip(KEYS, subset) if s]
        for perm in itertools.permutations(keys):
            for a in XUSERS:
                for c in XUSERS:
                    if ('last_modified_by' not in keys and a != XUSERS[0] or
                            'creator' not in keys and c != XUSERS[0]):
                        continue
                    if len(keys) == 4 and perm[0] > perm[1] and (a, c) != (
                            'Jo', '') and a is not None:
                        continue
                    v = dict(stamps, last_modified_by=a, creator=c)
                    props = [(k, v[k]) for k in perm]
                    i += 1
                    o = i % (len(other) + 1)
                    props = other[:o] + props + other[o:]
                    R.do(casex, tuple(props), PRE[i % 4], FN[i % 3],
                         (None, 'reversed')[i % 2],
                         (None, '0', '1', 'true', 'false')[i % 5],
                         ({}, {'on_demand': True})[i % 2])


def bounds(tier):
    return ('Excel 97 books with every user name of a list, all orders of '
            'the user, country, date mode and code page records; the seven '
            'older versions with 11 code pages; xlsx core properties in all '
            'subsets and orders')


def tasks(tier):
    return ([('new', (s, 4)) for s in range(4)] +
            [('olds', (v,)) for v in OLD] + [('books', ())])
