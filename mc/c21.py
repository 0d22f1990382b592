"""C21: Excel dates convert exactly and invertibly in both date systems."""
import datetime
from channelpack import xlrd
from channelpack.xlrd import xldate
from core import expect

PROP = 'C21'
ASSUMPTIONS = ['exact ties between two seconds or milliseconds may round '
               'either way',
               'serials below 61 in the 1900 system are only checked as '
               'rejected tuples; datetimes for 0 <= serial < 60 follow '
               '1899-12-31 + serial']

ERR = xldate.XLDateError
EPOCH = (datetime.date(1899, 12, 30).toordinal(),
         datetime.date(1904, 1, 1).toordinal())
LAST = datetime.date(9999, 12, 31).toordinal()
TOP = tuple(LAST - e for e in EPOCH)             # last valid serial day


def want_tuple(mode, day, sec):
    """What serial day + sec/86400 (sec whole, maybe 86400) shows."""
    if sec == 86400:
        day, sec = day + 1, 0
    if day > TOP[mode]:
        return 'error'
    h, m, s = sec // 3600, sec // 60 % 60, sec % 60
    if day == 0:
        return (0, 0, 0, h, m, s)
    if mode == 0 and day < 61:
        return 'error'
    d = datetime.date.fromordinal(EPOCH[mode] + day)
    return (d.year, d.month, d.day, h, m, s)


def want_datetime(mode, day, ms):
    """day + ms milliseconds."""
    e = EPOCH[mode]
    if mode == 0 and day < 60:
        e += 1
    return (datetime.datetime.fromordinal(e) +
            datetime.timedelta(days=day, milliseconds=ms))


def tup(x, mode):
    try:
        return tuple(xlrd.xldate_as_tuple(x, mode))
    except ERR:
        return 'error'


def days_case(R, mode, lo, hi):
    """Whole days: tuple, datetime, and back."""
    e = EPOCH[mode]
    for day in range(lo, hi):
        got = tup(day, mode)
        want = want_tuple(mode, day, 0)
        expect(got == want, 'serial %d mode %d: tuple %r, should be %r', day,
               mode, got, want)
        gotf = tup(float(day), mode) if day % 32 < 2 else got
        expect(gotf == want, 'serial %r mode %d: tuple %r, should be %r',
               float(day), mode, gotf, want)
        if not (mode == 0 and day == 60) and day <= TOP[mode]:
            gd = xlrd.xldate_as_datetime(day, mode)
            wd = want_datetime(mode, day, 0)
            expect(gd == wd, 'serial %d mode %d: datetime %r, should be %r',
                   day, mode, gd, wd)
        if want != 'error' and day:
            d = datetime.date.fromordinal(e + day)
            back = xldate.xldate_from_date_tuple((d.year, d.month, d.day),
                                                 mode)
            expect(back == day, '%s mode %d: serial %r, should be %d', d,
                   mode, back, day)
    R.step(hi - lo)
    R.state((mode, lo, hi))
    return (mode, lo)


def days(R, mode, lo, hi):
    for a in range(lo, hi, 1000):
        R.do(days_case, mode, a, min(a + 1000, hi))


def seconds_case(R, mode, day, lo, hi):
    """Every second of a day, exactly and just before and after the point
    half way to the next, and back."""
    for s in range(lo, hi):
        x = day + s / 86400.0
        want = want_tuple(mode, day, s)
        got = tup(x, mode)
        expect(got == want, 'serial %r mode %d: tuple %r, should be %r', x,
               mode, got, want)
        if want != 'error':
            back = xldate.xldate_from_datetime_tuple(want, mode)
            expect(abs(back - x) < 2e-9, '%r mode %d: serial %r, should be '
                   '%r', want, mode, back, x)
            expect(tup(back, mode) == want, '%r mode %d: there and back '
                   'gives %r', want, mode, tup(back, mode))
            t = xldate.xldate_from_time_tuple(want[3:])
            expect(abs(t - s / 86400.0) < 1e-12, '%r: time %r, should be %r',
                   want[3:], t, s / 86400.0)
        for dt in (0.499, 0.501):
            x = day + (s + dt) / 86400.0
            want = want_tuple(mode, day, s + (1 if dt > .5 else 0))
            got = tup(x, mode)
            expect(got == want, 'serial %r mode %d: tuple %r, should be %r',
                   x, mode, got, want)
    R.step(3 * (hi - lo))
    R.state((mode, day, lo, hi))
    return (mode, day, lo)


def seconds(R, mode, day):
    for a in range(0, 86400, 1200):
        R.do(seconds_case, mode, day, a, a + 1200)


MS = (0, 1, 2, 499, 500, 501, 998, 999)


def ms_case(R, mode, day, lo, hi, mss):
    for s in range(lo, hi):
        for ms in mss:
            k = s * 1000 + ms
            for dk in (0, 0.4, -0.4):
                if k + dk < 0:
                    continue
                x = day + (k + dk) / 86400000.0
                want = want_datetime(mode, day, k)
                got = xlrd.xldate_as_datetime(x, mode)
                expect(got == want, 'serial %r mode %d: datetime %r, should '
                       'be %r', x, mode, got, want)
    R.step(3 * len(mss) * (hi - lo))
    R.state((mode, day, 'ms', lo, hi))
    return (mode, day, lo)


def millis(R, mode, day, every):
    mss = tuple(range(1000)) if every else MS
    for a in range(0, 86400, 400):
        R.do(ms_case, mode, day, a, a + 400, mss)


def early(R, mode):
    """Times of the first days, where the 1900 system has its leap day."""
    for day in list(range(60)) + list(range(61, 130)):
        for a in range(0, 86400, 5400):
            R.do(ms_case, mode, day, a, a + 1, MS)
        R.do(ms_case, mode, day, 86399, 86400, (0, 500, 990))


def midnight_case(R, mode, lo, hi, step):
    for day in range(lo, hi, step):
        midnight(mode, day)
    R.step(14 * ((hi - lo) // step))
    R.state((mode, lo, step, 'midnight'))
    return (mode, lo)


def midnight(mode, day):
    """Around midnight of a day: times that round over it."""
    for frac in (0.9999, 0.99998, 0.999994, 0.99999421, 0.9999943,
                 0.999999, 0.9999999):
        x = day + frac
        k = frac * 86400.0
        if abs(k - int(k) - 0.5) < 1e-3:
            continue
        want = want_tuple(mode, day, int(k + 0.5))
        got = tup(x, mode)
        expect(got == want, 'serial %r mode %d: tuple %r, should be %r', x,
               mode, got, want)
        km = (x - day) * 86400000.0
        if abs(km - int(km) - 0.5) < 0.1 or (mode == 0 and day in (59, 60)) \
                or day >= TOP[mode]:
            continue
        gd = xlrd.xldate_as_datetime(x, mode)
        wd = want_datetime(mode, day, int(km + 0.5))
        expect(gd == wd, 'serial %r mode %d: datetime %r, should be %r', x,
               mode, gd, wd)


def midnights(R, mode, lo, hi, step):
    for a in range(lo, hi, 1000 * step):
        R.do(midnight_case, mode, a, min(a + 1000 * step, hi), step)


def refused(f, *a):
    try:
        r = f(*a)
    except ERR:
        return True
    expect(False, '%s%r gives %r, should be refused', f.__name__, a, r)


def invalid_case(R, mode, y):
    """Every day number around the ends of every month of a year."""
    for m in range(-1, 15):
        for d in (-1, 0, 1, 2, 28, 29, 30, 31, 32, 100):
            ok = True
            try:
                o = datetime.date(y, m, d).toordinal() - EPOCH[mode]
                if o < (61 if mode == 0 else 1) or y > 9999:
                    ok = False
            except ValueError:
                ok = False
            if ok:
                got = xldate.xldate_from_date_tuple((y, m, d), mode)
                expect(got == o, '%r mode %d: serial %r, should be %d',
                       (y, m, d), mode, got, o)
                got = xldate.xldate_from_datetime_tuple(
                    (y, m, d, 12, 0, 0), mode)
                expect(got == o + 0.5, '%r noon mode %d: serial %r', (y, m, d),
                       mode, got)
            elif (y, m, d) != (0, 0, 0):
                refused(xldate.xldate_from_date_tuple, (y, m, d), mode)
                refused(xldate.xldate_from_datetime_tuple,
                        (y, m, d, 12, 0, 0), mode)
            R.step()
    R.state((mode, y))
    return (mode, y)


def invalid(R, mode, lo, hi):
    for y in range(lo, hi):
        R.do(invalid_case, mode, y)


def reject_case(R, mode, x):
    refused(xlrd.xldate_as_tuple, x, mode)
    R.step()
    R.state((mode, x))
    return (mode, x)


def times_case(R, t, ok):
    for mode in (0, 1):
        if ok:
            want = (t[0] * 3600 + t[1] * 60 + t[2]) / 86400.0
            got = xldate.xldate_from_time_tuple(t)
            expect(abs(got - want) < 1e-12, 'time %r gives %r', t, got)
            got = xldate.xldate_from_datetime_tuple((0, 0, 0) + t, mode)
            expect(abs(got - want) < 1e-12, 'time %r gives %r', t, got)
        else:
            refused(xldate.xldate_from_time_tuple, t)
            refused(xldate.xldate_from_datetime_tuple, (2000, 1, 1) + t,
                    mode)
    R.step()
    R.state(t)
    return t


def rejections(R):
    for mode in (0, 1):
        for x in (-1, -0.1, -1e-9, -1e-12, -1e-300, -5e-324, -60, -1e6, TOP[mode] + 1, TOP[mode] + 1.5,
                  TOP[mode] + 0.999999, 1e7, 1e9, 2 ** 31):
            R.do(reject_case, mode, x)
    for x in (1, 1.5, 2, 30.25, 58.9, 59, 59.5, 60, 60.5, 60.9):
        R.do(reject_case, 0, x)
    for mode in (2, -1, 1900, 1904):
        for x in (0, 1, 100, 40000.5):
            R.do(reject_case, mode, x)
        R.do(mode_case, mode)
    H = (-1, 0, 1, 12, 23, 24, 25)
    M = (-1, 0, 1, 30, 59, 60, 61)
    for h in H:
        for m in M:
            for s in M:
                ok = 0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60
                R.do(times_case, (h, m, s), ok)


def mode_case(R, mode):
    refused(xldate.xldate_from_date_tuple, (2000, 1, 1), mode)
    refused(xldate.xldate_from_datetime_tuple, (2000, 1, 1, 1, 1, 1), mode)
    R.step(2)
    R.state(('mode', mode))
    return mode


EDGES = {0: (0, 61, 62, 365, 366, 367, 40000, 73050, 2958464, 2958465),
         1: (0, 1, 59, 60, 61, 365, 1462, 38000, 2957002, 2957003)}


def bounds(tier):
    return ('all %d + %d days of the two systems; every second and both '
            'sides of every half second of %d days; %s of those days; '
            'midnight edges of %s; month ends of all years 1898..10001' % (
                TOP[0], TOP[1], sum(map(len, EDGES.values())),
                '8 milliseconds of every second' if tier == 'quick' else
                'every millisecond',
                'every 29th day' if tier == 'quick' else 'every day'))


def tasks(tier):
    q = tier == 'quick'
    t = [('rejections', ())]
    for mode in (0, 1):
        t += [('invalid', (mode, a, min(a + 1400, 10002)))
              for a in range(1898, 10002, 1400)]
        t += [('invalid', (mode, -1, 3))]
        t += [('days', (mode, a, min(a + 100000, TOP[mode] + 3)))
              for a in range(0, TOP[mode] + 3, 100000)]
        t += [('seconds', (mode, d)) for d in EDGES[mode]]
        t += [('early', (mode,))]
        t += [('midnights', (mode, a, min(a + 200000, TOP[mode] + 1),
                             29 if q else 1))
              for a in range(0, TOP[mode] + 1, 200000)]
        t += [('midnights', (mode, 0, 130, 1)),
              ('midnights', (mode, TOP[mode] - 40, TOP[mode] + 1, 1))]
        es = [d for d in EDGES[mode] if d < TOP[mode]]
        if not q:
            t += [('millis', (mode, d, True)) for d in es]
        else:
            t += [('millis', (mode, d, False)) for d in (es[1], es[5],
                                                         es[-1])]
    return t
