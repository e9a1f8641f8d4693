"""T01: calendar conversions."""
import calendar
import datetime
import fractions
import numpy as np
import gravity_toolkit as g
from rv.core import Check

T = g.time
check = Check('T01', 'each case draws calendar dates and times (leap years, '
    'century years, month and year ends, times of day, arrays and scalars) and '
    'compares every conversion with the Python proleptic Gregorian calendar in '
    'exact arithmetic',
    ['years 1601 to 3999 (the toolkit departs from the Gregorian calendar in '
     'multiples of 4000)', 'Julian days carry about 1e-4 seconds'])


def dates(c, n, lo=1601, hi=3999):
    out = []
    for _ in range(n):
        k = c.int(0, 5)
        y = c.pick(1700, 1800, 1900, 2000, 2100, 2400) if k == 0 else \
            (c.int(2000, 2030) if k < 4 else c.int(lo, hi))
        mth = c.pick(1, 2, 12, c.int(1, 12))
        last = calendar.monthrange(y, mth)[1]
        d = c.pick(1, last, c.int(1, last))
        h, mi, s = c.pick((0, 0, 0), (12, 0, 0), (23, 59, 59),
            (c.int(0, 23), c.int(0, 59), c.int(0, 59)))
        out.append(datetime.datetime(y, mth, d, h, mi, s))
    return out


def decimal(d):
    """exact decimal year"""
    n = 366 if calendar.isleap(d.year) else 365
    t = d - datetime.datetime(d.year, 1, 1)
    return float(d.year + fractions.Fraction(t.days*86400+t.seconds, 86400*n))


def fields(ds):
    return [np.array([getattr(d, n) for d in ds], dtype=float) for n in
        ('year', 'month', 'day', 'hour', 'minute', 'second')]


@check.section('decimal', quick=120, thorough=1200)
def decimals(c):
    ds = dates(c, c.pick(1, c.int(2, 12)))
    Y, M, D, h, m, s = fields(ds)
    c.note(first=str(ds[0]), n=len(ds))
    want = np.array([decimal(d) for d in ds])
    r = T.convert_calendar_decimal(Y, M, day=D, hour=h, minute=m, second=s)
    c.close(r, want, 'full', rtol=1e-15, atol=2e-12)
    r = T.convert_calendar_decimal(Y, M, day=D)
    day0 = np.array([decimal(d.replace(hour=0, minute=0, second=0))
        for d in ds])
    c.close(r, day0, 'days', rtol=0, atol=2e-12)
    r = T.convert_calendar_decimal(Y, M, day=D, hour=h+m/60+s/3600)
    c.close(r, want, 'hours', rtol=0, atol=2e-12)
    # without a day the middle of the month
    mid = []
    for d in ds:
        n = calendar.monthrange(d.year, d.month)[1]
        a = datetime.datetime(d.year, d.month, 1)
        mid.append(decimal(a + datetime.timedelta(seconds=43200*n)))
    c.close(T.convert_calendar_decimal(Y, M), mid, 'mid-month', rtol=0,
        atol=2e-12)
    # from the day of the year
    doy = np.array([d.timetuple().tm_yday for d in ds], dtype=float)
    r = T.convert_calendar_decimal(Y, np.ones_like(Y), DofY=doy, hour=h,
        minute=m, second=s)
    c.close(r, want, 'day-of-year', rtol=0, atol=2e-12)
    # a single value
    r = T.convert_calendar_decimal(ds[0].year, ds[0].month, day=ds[0].day,
        hour=ds[0].hour, minute=ds[0].minute, second=ds[0].second)
    c.close(np.squeeze(r), want[0], 'scalar', rtol=0, atol=2e-12)
    # the order of dates is kept
    o = np.argsort([d.toordinal()*86400+d.hour*3600+d.minute*60+d.second
        for d in ds], kind='stable')
    c.ok(np.all(np.diff(want[o]) >= 0) and np.all(np.diff(
        T.convert_calendar_decimal(Y, M, day=D, hour=h, minute=m,
        second=s)[o]) >= -1e-12), 'order')


@check.section('julian', quick=120, thorough=1200)
def julian(c):
    ds = dates(c, c.pick(1, c.int(2, 12)))
    Y, M, D, h, m, s = fields(ds)
    JD0 = np.array([d.toordinal() + 1721424.5 for d in ds])
    frac = (h*3600+m*60+s)/86400
    c.note(first=str(ds[0]), n=len(ds))
    JD = JD0 + frac
    single = c.chance(.3)
    fmt = c.pick('dict', 'tuple', 'zip') if not single else \
        c.pick('dict', 'tuple')
    arg = float(JD[0]) if single else JD.copy()
    kw = {} if fmt == 'dict' and c.chance(.5) else dict(format=fmt)
    r = T.convert_julian(arg, **kw)
    if fmt == 'dict':
        c.eq(list(r), ['year', 'month', 'day', 'hour', 'minute', 'second'],
            'keys')
        r = tuple(r.values())
    elif fmt == 'zip':
        r = tuple(np.array(x) for x in zip(*r))
    if single:
        c.ok(all(isinstance(x, float) for x in r), 'scalar')
        r = tuple(np.array([x]) for x in r)
        ds, JD = ds[:1], JD[:1]
    else:
        c.ok(np.array_equal(arg, JD), 'input-untouched')
    for k, d in enumerate(ds):
        y, mo, da, hh, mi, ss = (float(x[k]) for x in r)
        c.ok(1 <= mo <= 12 and 1 <= da <= 31 and 0 <= hh < 24 and
            0 <= mi < 60 and -1e-3 <= ss <= 60.001, 'range', got=str(r))
        t = datetime.datetime(int(y), int(mo), int(da)) + \
            datetime.timedelta(hours=hh, minutes=mi, seconds=ss)
        c.ok(abs((t-d).total_seconds()) < 1e-3, 'calendar', 'calendar date',
            got=str(t), want=str(d))
    # whole days are exact and integer types are honoured
    kw = dict(astype=c.pick('int', np.int32)) if c.chance(.5) else {}
    r = T.convert_julian(JD0 + 0.25, **kw)
    Y, M, D = Y, M, D
    for n, w in zip(('year', 'month', 'day', 'hour', 'minute'),
            (Y, M, D, np.full(len(Y), 6), np.zeros(len(Y)))):
        c.close(r[n], w, n, rtol=0)
        if kw:
            c.eq(r[n].dtype.kind, 'i', 'astype')


@check.section('julian-calendar', quick=20, thorough=200)
def old(c):
    """Julian days before the Gregorian reform"""
    jdn = c.rng.integers(1800000, 2299161, 6)
    jdn[0] = 2299160 - c.int(0, 2)
    c.note(first=int(jdn[0]))
    r = T.convert_julian(jdn.astype(float))
    for k, J in enumerate(jdn):
        # Richards' integer algorithm for the Julian calendar
        f = int(J) + 1401
        e = 4*f + 3
        gg = e % 1461 // 4
        h = 5*gg + 2
        D, M = h % 153//5 + 1, (h//153 + 2) % 12 + 1
        Y = e//1461 - 4716 + (14-M)//12
        c.eq((r['year'][k], r['month'][k], r['day'][k], r['hour'][k]),
            (Y, M, D, 12.0), 'date')
    # 4 October 1582 was followed by 15 October
    r = T.convert_julian(np.array([2299159.5, 2299160.5]) + float(c.rng.uniform(0, .9)),
        format='tuple')
    c.eq([tuple(map(float, x)) for x in zip(*r[:3])],
        [(1582., 10., 4.), (1582., 10., 15.)], 'reform')


@check.section('year-to-julian', quick=40, thorough=400)
def yeartojd(c):
    ds = dates(c, c.int(1, 8))
    t = np.array([decimal(d) for d in ds])
    JD = np.array([d.toordinal() + 1721424.5 + (d.hour*3600+d.minute*60 +
        d.second)/86400 for d in ds])
    c.note(first=str(ds[0]), n=len(ds))
    c.close(T.calendar_to_julian(t), JD, 'array', rtol=0, atol=1e-8)
    c.close(T.calendar_to_julian(float(t[0])), JD[0], 'scalar', rtol=0,
        atol=1e-8)


@check.section('month-lengths', quick=60, thorough=600)
def lengths(c):
    y = 1999+c.index if c.index < 30 else c.int(1601, 3999) if c.chance(.7) else \
        100*c.int(16, 39)
    c.note(year=y)
    want = [calendar.monthrange(y, m)[1] for m in range(1, 13)]
    c.eq(list(T.calendar_days(y)), want, 'int')
    c.eq(list(T.calendar_days(float(y))), want, 'float')
