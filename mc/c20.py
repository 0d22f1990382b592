"""C20: a damaged workbook file is refused, never looped on or misread."""
import io
import re
import struct
import xlsgen as g
import gridmodel as gm
import c19
from core import expect, Mismatch

PROP = 'C20'
LEVEL = 'fault_enumeration'
RULE = ('Every single field (allocation table entry, short allocation table '
        'entry, master allocation table entry, header field, directory entry '
        'field) of generated compound documents is set to every sector '
        'number in and just outside the file, every special mark and '
        'boundary values; the file is cut at every byte. One execution per '
        '(document, field, value); distinct_nontrivial counts distinct '
        '(document, field, value).')
ASSUMPTIONS = ['one damaged field or one truncation per file',
               'documents without another, unread stream of the same shape '
               'to cross link into',
               'termination within 20 s of CPU and 3 GB of memory (normal: '
               'under 1 ms)']

SPECIAL = (-1, -2, -3, -4, -5, -6, 0x7FFFFFFF, -0x80000000, 127, 128, 255,
           256, 4095, 4096, 65535)

SAID = re.compile(r'expected size \d+, actual size \d+')


def scatter(logical):
    return logical[::-2] + logical[-2::-2]


DOCS = {
    # name: (stream size, Doc arguments, build arguments)
    'std': (4200, {}, {}),
    'scattered': (4200, {'gaps': 2}, {'place': scatter}),
    'large': (4096, {'ssz': 10}, {'place': lambda x: x[::-1]}),
    'short': (1200, {}, {}),
    'shortrev': (1200, {'gaps': 1}, {'sgaps': 2, 'place': scatter,
                                     'splace': tuple(range(21))[::-1]}),
    'short2': (2000, {'ssz': 7, 'sssz': 5}, {'place': scatter}),
    'msatx': (4200, {'msatx': 1}, {'satsize': 3}),
    'msatx2': (4200, {'msatx': 2, 'ssz': 7}, {'place': scatter}),
    'dirs': (4200, {'dirpad': 1, 'storages': ('_VBA',), 'more': 1},
             {'tree': 'mid'}),
    'shortdirs': (1200, {'dirpad': 2, 'storages': ('_VBA',), 'more': 1},
                  {'tree': 'left'}),
    # records as long as sectors: any chain reads as a sequence of records
    'aligned': ('A512', {'gaps': 1}, {}),
    'alignedscat': ('A512', {'gaps': 1}, {'place': scatter}),
    'shortaligned': ('A64', {}, {}),
    'shortalignedscat': ('A64', {'gaps': 1}, {'place': scatter, 'sgaps': 1}),
    # the directory, the short stream container and the short allocation
    # table also read as records up to an EOF record
    'crossscs': ('A512', {'more': 'scs'}, {}),
    'crossdir': ('A512', {'more': 'dir', 'dirpad': 6}, {'tree': 'mid'}),
    'crossssat': ('A512', {'more': 'ssat'}, {}),
}
BUILT = {}


def aligned(n):
    """A stream of one sheet of records of n bytes at multiples of n."""
    rows = [('%d' % i).ljust(n - 13, 'abcdefghijk'[i]) for i in range(11)]
    body = b''.join(g.label(i, i % 3, 0, t) for i, t in enumerate(rows))
    head = len(g.workbook([('First', b'')]))

    def wb(p):
        return g.workbook([('First', body)], globalpad=p)
    p = -(head - 4) % n
    s = wb(p + n if p < 4 else p)
    assert len(body) == 11 * n and len(s) % n == 4, (len(s), n)
    s += g.rec(0x4D, b'\0' * (n - 8))
    return s, [{(i, i % 3): (gm.TEXT, t) for i, t in enumerate(rows)}]


def doc(name):
    if name not in BUILT:
        size, kw, bkw = DOCS[name]
        s, grids = (aligned(int(size[1:])) if isinstance(size, str) else
                    c19.get(size))
        kw = dict(kw)
        streams = [('Workbook', s, None)]
        more = kw.pop('more', 0)
        if more == 'scs':
            other = b''.join(g.label(20 + i, 1, 0, 'z' * 499)
                             for i in range(6)) + g.EOF
            streams.append(('other', other, None))
        elif more == 'dir':
            # 'xp', first sector 10: a record of 112 bytes and EOF
            streams = ([('a', b'a' * 640, None), ('b', b'', None)] + streams
                       + [('xp', b'x' * 40, None)])
        elif more == 'ssat':
            streams += [('o%d' % i, b'o' * 3500, None) for i in range(3)]
        elif more:
            streams = [('\x05Info', b's' * 100, None)] + streams
            streams.append(('dir', b'd' * 30, '_VBA'))
        d = g.Doc(streams, **kw)
        content = d.build(**bkw)
        BUILT[name] = (d, content, grids)
    return BUILT[name]


def fields(name):
    """All (label, offset, size) of the fields of a document."""
    d, content, grids = doc(name)
    S = d.size
    res = []
    n = len(d.phys)
    for i in range(n + 1):
        if i >= len(d.sat):
            break
        k = i * 4 // S
        off = 512 + d.at[('sat', k)] * S + i * 4 % S
        res.append(('SAT[%d]' % i, off, 4))
    if d.ssat:
        for i in range(len(d.ssat) + 1):
            k = i * 4 // S
            if ('ssat', k) not in d.at:
                break
            off = 512 + d.at[('ssat', k)] * S + i * 4 % S
            res.append(('SSAT[%d]' % i, off, 4))
    for i in range(min(109, sum(1 for x in d.phys if x[0] == 'sat') + 2)):
        res.append(('MSAT[%d]' % i, 76 + 4 * i, 4))
    for x in d.phys:
        if x[0] == 'msatx':
            base = 512 + d.at[x] * S
            for i in list(range(4)) + [S // 4 - 2, S // 4 - 1]:
                res.append(('MSATX%d[%d]' % (x[1], i), base + 4 * i, 4))
    for lab, off in (('SAT_tot', 44), ('dir_first', 48), ('cutoff', 56),
                     ('SSAT_first', 60), ('SSAT_tot', 64),
                     ('MSATX_first', 68), ('MSATX_tot', 72)):
        res.append((lab, off, 4))
    res += [('sector shift', 30, 2), ('short shift', 32, 2),
            ('byte order', 28, 2)]
    for i in range(len(d.dents)):
        k = i * 128 // S
        base = 512 + d.at[('dir', k)] * S + i * 128 % S
        for lab, o, z in (('namelen', 64, 2), ('type', 66, 1),
                          ('left', 68, 4), ('right', 72, 4),
                          ('child', 76, 4), ('first', 116, 4),
                          ('size', 120, 4)):
            res.append(('dir[%d].%s' % (i, lab), base + o, z))
    return res


def values(d, old, z):
    n = len(d.phys)
    vals = list(range(-6, n + 3)) + list(SPECIAL)
    vals += [old - 1, old + 1, old * 2, old - 64, old + 64, old ^ 1,
             old - 512, old + 512, old & ~511]
    res = []
    for v in vals:
        v &= (1 << 8 * z) - 1
        if v != old & ((1 << 8 * z) - 1) and v not in res:
            res.append(v)
    return res


def outcome(content, grids, what):
    log = io.StringIO()
    try:
        wb = gm.open_bytes(content, logfile=log)
        got = [wb.sheet_by_index(i) for i in range(wb.nsheets)]
        names = wb.sheet_names()
    except MemoryError:
        raise
    except Exception as e:
        return type(e).__name__
    expect(names == ['First', 'Second'][:len(grids)], '%s: opened without an '
           'error with sheets %r', what, names)
    try:
        for i in range(len(grids)):
            gm.check_sheet(got[i], grids[i], '%s: opened without an error, '
                           'sheet %d' % (what, i))
    except Mismatch:
        # a short stream that is shorter than its size is tolerated but said
        if what.startswith('shortaligned') and SAID.search(log.getvalue()):
            return 'warned'
        raise
    return 'same'


def patch(name, off, z, v):
    d, content, grids = doc(name)
    return content[:off] + v.to_bytes(z, 'little') + content[off + z:]


def field_case(R, name, lab, off, z, v):
    d, content, grids = doc(name)
    R.step()
    R.state((name, lab, v))
    return lab.split('[')[0], outcome(patch(name, off, z, v), grids,
                                      '%s: %s set to %d' % (name, lab, v))


def damage(R, name, shard, nshards):
    d, content, grids = doc(name)
    R.do(whole_case, name)
    for i, (lab, off, z) in enumerate(fields(name)):
        if i % nshards != shard:
            continue
        old = int.from_bytes(content[off:off + z], 'little')
        for v in values(d, old, z):
            R.do(field_case, name, lab, off, z, v)


def whole_case(R, name):
    d, content, grids = doc(name)
    R.step()
    r = outcome(content, grids, name)
    expect(r == 'same', '%s: undamaged document refused: %s', name, r)
    return r


def cut_case(R, name, n):
    d, content, grids = doc(name)
    R.step()
    R.state((name, 'cut', n))
    return 'cut', outcome(content[:n], grids, '%s: cut to %d bytes' % (
        name, n))


def cuts(R, name, shard, nshards, step):
    d, content, grids = doc(name)
    for n in range(shard * step, len(content), nshards * step):
        R.do(cut_case, name, n)


def extend_case(R, name, n, b):
    d, content, grids = doc(name)
    R.step()
    R.state((name, 'extra', n, b))
    return 'extra', outcome(content + b * n, grids,
                            '%s: %d bytes added' % (name, n))


def extend(R, name):
    for n in (1, 4, 64, 511, 512, 513, 1024, 5000):
        for b in (b'\0', b'\xff'):
            R.do(extend_case, name, n, b)


def pairs(R, name, shard, nshards):
    """Two chain entries damaged: termination only makes sense to ask, so
    only values that make cycles or run out of the file."""
    d, content, grids = doc(name)
    fs = [f for f in fields(name) if f[0].startswith(('SSAT[', 'SAT['))]
    i = 0
    for x in range(len(fs)):
        for y in range(x):
            i += 1
            if i % nshards != shard:
                continue
            for va in (0, x, y, len(d.phys) - 1, 1 << 20):
                for vb in (0, x, y, 1 << 20):
                    R.do(ends_case, name, fs[x] + (va,), fs[y] + (vb,))


def ends_case(R, name, a, b):
    d, content, grids = doc(name)
    c = content
    for lab, off, z, v in (a, b):
        c = c[:off] + v.to_bytes(z, 'little') + c[off + z:]
    R.step()
    R.state((name, a, b))
    try:
        wb = gm.open_bytes(c)
        return 'opened', wb.nsheets
    except MemoryError:
        raise
    except Exception as e:
        return 'pair', type(e).__name__


def bounds(tier):
    return ('%d documents (%s); every field x every value; cut at every '
            'byte; two damaged table entries (termination): %s' % (
                len(DOCS), ', '.join(DOCS),
                'all pairs' + (' of the first 14' if tier == 'quick' else
                               '')))


def tasks(tier):
    q = tier == 'quick'
    t = [('damage', (n, s, 4)) for n in DOCS for s in range(4)]
    t += [('extend', (n,)) for n in DOCS]
    t += [('cuts', (n, s, 4, 1)) for n in DOCS
          for s in range(4)]
    t += [('pairs', (n, s, 4)) for n in DOCS for s in range(4)
          if not q or not n.startswith('cross')]
    return t
