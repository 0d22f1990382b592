"""Writer of xlsx packages; nothing in here uses the code under check."""
import io
import zipfile

NS = 'http://schemas.openxmlformats.org/spreadsheetml/2006/main'
ODREL = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
PKGREL = 'http://schemas.openxmlformats.org/package/2006/relationships'


def esc(s):
    return (s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
            .replace('"', '&quot;').replace('\n', '&#10;')
            .replace('\r', '&#13;').replace('\t', '&#9;'))


def letters(c):
    """Counting: A..Z, AA.."""
    s = ''
    c += 1
    while c:
        c, r = divmod(c - 1, 26)
        s = chr(65 + r) + s
    return s


def addr(r, c):
    return letters(c) + str(r + 1)


def t(s, preserve=None):
    if preserve is None:
        preserve = s != s.strip()
    return '<t%s>%s</t>' % (' xml:space="preserve"' if preserve else '',
                            esc(s))


def si(s):
    return '<si>%s</si>' % t(s)


def rels(items):
    """items: list of (id, type suffix, target)"""
    return ('<?xml version="1.0" encoding="UTF-8"?><Relationships xmlns="%s">'
            '%s</Relationships>' % (PKGREL, ''.join(
                '<Relationship Id="%s" Type="%s/%s" Target="%s"/>' %
                (i, ODREL, ty, tg) for i, ty, tg in items)))


def sheetxml(rows, dimension=None, merge=(), cols='', tail=''):
    """rows: list of (attributes text, list of cell xml)"""
    return ('<?xml version="1.0" encoding="UTF-8"?><worksheet xmlns="%s" '
            'xmlns:r="%s">%s<sheetViews/>%s<sheetData>%s</sheetData>%s%s'
            '</worksheet>' % (
                NS, ODREL,
                '<dimension ref="%s"/>' % dimension if dimension else '',
                cols,
                ''.join('<row%s>%s</row>' % (a, ''.join(cs))
                        for a, cs in rows),
                '<mergeCells count="%d">%s</mergeCells>' % (
                    len(merge), ''.join('<mergeCell ref="%s"/>' % m
                                        for m in merge)) if merge else '',
                tail))


def stylesxml(numfmts, xfs, stylexfs=(0,), attr=''):
    """numfmts: list of (id, code); xfs: list of numFmtId or None (attribute
    absent)"""
    def xf(k):
        return '<xf%s%s/>' % ('' if k is None else ' numFmtId="%d"' % k,
                              attr)
    return ('<?xml version="1.0" encoding="UTF-8"?><styleSheet xmlns="%s">'
            '%s<fonts count="1"><font/></fonts><cellStyleXfs>%s'
            '</cellStyleXfs><cellXfs count="%d">%s</cellXfs><cellStyles>'
            '<cellStyle name="Normal" xfId="0"/></cellStyles></styleSheet>' %
            (NS, '<numFmts count="%d">%s</numFmts>' % (len(numfmts), ''.join(
                '<numFmt numFmtId="%d" formatCode="%s"/>' % (k, esc(c))
                for k, c in numfmts)) if numfmts else '',
             ''.join(xf(k) for k in stylexfs), len(xfs),
             ''.join(xf(k) for k in xfs)))


def package(sheets, sst=None, styles=None, date1904=None, store=True,
            case=None, absolute=False, sheetids=None, parts=(), order=None,
            slashes=False, states=None, sstname='xl/sharedStrings.xml',
            others=(), names='', targets=None):
    """sheets: list of (name, sheet xml).  sst: list of <si> xml or None.
    others: list of (position, name, reltype, part xml) of sheets that are
    not worksheets.  targets: list of (target, name of the part) of the
    sheets."""
    n = len(sheets)
    items = []
    entries = []
    for i, (name, xml) in enumerate(sheets):
        fn = 'worksheets/%s%d.xml' % ('Sheet' if case else 'sheet', i + 1)
        items.append(('rId%d' % (i + 1), 'worksheet',
                      esc(targets[i][0]) if targets else
                      ('/xl/' if absolute else '') + fn))
        entries.append('<sheet name="%s" sheetId="%d"%s r:id="rId%d"/>' % (
            esc(name), (sheetids or range(1, n + 1))[i],
            ' state="%s"' % states[i] if states and states[i] else '',
            i + 1))
    files = []
    for j, (at, name, ty, xml) in enumerate(others):
        items.append(('rIdx%d' % j, ty, '%ss/%s1.xml' % (ty, ty)))
        entries.insert(at, '<sheet name="%s" sheetId="%d" r:id="rIdx%d"/>' % (
            esc(name), 90 + j, j))
        files.append(('xl/%ss/%s1.xml' % (ty, ty), xml))
    items.append(('rIdS', 'styles', 'styles.xml'))
    items.append(('rIdT', 'sharedStrings', 'sharedStrings.xml'))
    wb = ('<?xml version="1.0" encoding="UTF-8"?><workbook xmlns="%s" '
          'xmlns:r="%s">%s<sheets>%s</sheets>%s</workbook>' % (
              NS, ODREL, '' if date1904 is None else
              '<workbookPr date1904="%s"/>' % date1904, ''.join(entries), names))
    files += [('[Content_Types].xml', '<Types/>'),
              ('xl/_rels/workbook.xml.rels', rels(items)),
              ('xl/workbook.xml', wb)]
    if styles is not None:
        files.append(('xl/styles.xml', styles))
    if sst is not None:
        files.append((sstname, '<?xml version="1.0" encoding="UTF-8"'
                      '?><sst xmlns="%s" count="%d" uniqueCount="%d">%s</sst>'
                      % (NS, len(sst), len(sst), ''.join(sst))))
    for i, (name, xml) in enumerate(sheets):
        files.append((targets[i][1] if targets else 'xl/worksheets/%s%d.xml'
                      % ('Sheet' if case else 'sheet', i + 1), xml))
    files += list(parts)
    if order == 'reversed':
        files = files[::-1]
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w', zipfile.ZIP_STORED if store else
                         zipfile.ZIP_DEFLATED) as z:
        for name, xml in files:
            if case == 'upper':
                name = name.upper()
            if case == 'lower':
                name = name.lower()
            zi = zipfile.ZipInfo(name.replace('/', '\\') if slashes else name,
                                 (2020, 1, 1, 0, 0, 0))
            if slashes:
                zi.filename = name.replace('/', '\\')
            z.writestr(zi, xml.encode('utf-8'))
    return buf.getvalue()
