"""T03: epochs, delta times and date strings."""
import datetime
import numpy as np
import gravity_toolkit as g
from checks.T01 import dates, fields
from rv.core import Check

T = g.time
check = Check('T03', 'each case draws epochs, times, scales, units and textual '
    'forms (ISO, spaces, time zones) and compares with Python datetime '
    'arithmetic')

EPOCHS = {'_mjd_epoch': (1858, 11, 17), '_ntp_epoch': (1900, 1, 1),
    '_unix_epoch': (1970, 1, 1), '_gps_epoch': (1980, 1, 6),
    '_j2000_epoch': (2000, 1, 1, 12)}
UNITS = {'microseconds': 1e-6, 'microsecond': 1e-6, 'microsec': 1e-6,
    'microsecs': 1e-6, 'milliseconds': 1e-3, 'millisecond': 1e-3,
    'millisec': 1e-3, 'millisecs': 1e-3, 'msec': 1e-3, 'msecs': 1e-3,
    'ms': 1e-3, 'seconds': 1, 'second': 1, 'sec': 1, 'secs': 1, 's': 1,
    'minutes': 60, 'minute': 60, 'min': 60, 'mins': 60, 'hours': 3600,
    'hour': 3600, 'hr': 3600, 'hrs': 3600, 'h': 3600, 'day': 86400,
    'days': 86400, 'd': 86400, 'mon': 30*86400, 'month': 30*86400,
    'months': 30*86400, 'common_year': 365*86400, 'common_years': 365*86400,
    'year': 365.25*86400, 'years': 365.25*86400}


def epoch(c):
    """(value as given to the library, datetime)"""
    d = c.pick([datetime.datetime(*e) for e in EPOCHS.values()] +
        dates(c, 2, 1800, 2200))
    k = c.int(0, 3)
    if k == 0:
        return tuple(d.timetuple()[:6]), d
    if k == 1:
        return list(d.timetuple()[:6]), d
    if k == 2:
        return d.strftime(c.pick('%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S')), d
    return np.datetime64(d), d


def exact(c):
    """epochs with fractions of a second"""
    if c.chance(.6):
        return epoch(c)
    d = dates(c, 1, 1800, 2200)[0].replace(microsecond=c.pick(250000, 500000,
        c.int(1, 999999), c.int(1, 999)*1000))
    if c.chance(.5):
        return np.datetime64(d), d
    f = c.pick('%Y-%m-%d %H:%M:%S.%f', '%Y-%m-%dT%H:%M:%S.%f')
    return d.strftime(f), d


@check.section('constants', quick=2, thorough=2)
def constants(c):
    for n, e in EPOCHS.items():
        c.eq(datetime.datetime(*getattr(T, n)), datetime.datetime(*e), n)


@check.section('delta', quick=80, thorough=800)
def delta(c):
    e1, d1 = exact(c)
    e2, d2 = exact(c)
    x = c.rng.uniform(-1e9, 1e9, c.int(1, 5))
    x = float(x[0]) if c.chance(.3) else x
    s = c.pick(1.0, 1/86400, 1/3600, 1e3)
    c.note(epoch1=str(d1), epoch2=str(d2), scale=s)
    gap = (d2-d1).total_seconds()
    kw = {} if s == 1.0 and c.chance(.5) else dict(scale=s)
    r = T.convert_delta_time(x, epoch1=e1, epoch2=e2, **kw)
    c.close(r, s*(np.asarray(x)-gap), 'delta', rtol=1e-14, atol=4e-6*abs(s))
    back = T.convert_delta_time(np.asarray(r)/s, epoch1=e2, epoch2=e1)
    c.close(back, x, 'inverse', rtol=1e-12, atol=1e-5)
    # datetime arrays
    ds = dates(c, 4, 1800, 2200)
    a = np.array(ds, dtype='datetime64[s]')
    kw = {} if c.chance(.3) else dict(epoch=e1)
    ref = d1 if kw else datetime.datetime(1970, 1, 1)
    c.close(T.convert_datetime(a, **kw), [(d-ref).total_seconds() for d in ds],
        'datetime', rtol=1e-15, atol=1e-6)


@check.section('calendar', quick=100, thorough=1000)
def calendardates(c):
    ds = dates(c, c.pick(1, c.int(2, 8)))
    Y, M, D, h, m, s = fields(ds)
    e, d = epoch(c)
    sc = c.pick(1.0, 24.0, 86400.0)
    c.note(first=str(ds[0]), epoch=str(d), scale=sc)
    kw = {} if sc == 1.0 and c.chance(.5) else dict(scale=sc)
    if c.chance(.2):
        d = datetime.datetime(1992, 1, 1)
    else:
        kw['epoch'] = e
    want = np.array([(x-d).total_seconds()/86400 for x in ds])
    r = T.convert_calendar_dates(Y, M, D, hour=h, minute=m, second=s, **kw)
    c.close(r/sc, want, 'days', rtol=0, atol=1e-9)
    f = h+m/60+s/3600
    r = T.convert_calendar_dates(Y, M, D+f/24, **kw)
    c.close(r/sc, want, 'fraction', rtol=0, atol=1e-9)
    r = T.convert_calendar_dates(*[float(v[0]) for v in (Y, M, D)],
        hour=float(h[0]), minute=float(m[0]), second=float(s[0]), **kw)
    c.close(r/sc, want[0], 'scalar', rtol=0, atol=1e-9)
    # and back through the Julian day
    mjd = T.convert_calendar_dates(Y, M, D, hour=12.0, epoch=(1858, 11, 17,
        0, 0, 0))
    q = T.convert_julian(mjd+2400000.5, format='tuple')
    c.close(q[0], Y, 'julian-year', rtol=0)
    c.close(q[1], M, 'julian-month', rtol=0)
    c.close(q[2], D, 'julian-day', rtol=0)


@check.section('strings', quick=120, thorough=1200)
def strings(c):
    d = dates(c, 1)[0]
    unit = list(UNITS)[c.index] if c.index < len(UNITS) else \
        c.pick(list(UNITS))
    hours = 0 if c.chance(.5) else c.int(-11, 12)
    text = c.pick('%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S')
    text = d.strftime(text)
    if len(text) < 19:
        text = text.zfill(19)
    d0 = d
    if hours:
        text += f'{hours:+03d}:00'
        d0 = d - datetime.timedelta(hours=hours)
    elif c.chance(.4):
        text += c.pick('Z', ' UTC', '+00:00')
    word = c.pick(unit, unit.upper(), unit.capitalize())
    full = f'{word} since {text}'
    want = list(d0.timetuple()[:6])
    c.note(text=full)
    e, s = T.parse_date_string(full)
    c.eq(list(e), want, 'epoch')
    c.close(s, UNITS[unit], 'factor', rtol=1e-15)
    u, e = T.split_date_string(full)
    c.eq((u, e), (unit, d0), 'split')
    e, s = T.parse_date_string(text)
    c.eq((list(e), s), (want, 0.0), 'date')
    c.eq(T.parse(text), d0, 'parse')
    c.eq(T.datetime_to_list(d0), want, 'list')
    x = c.rng.uniform(0, 1e3, 3)
    r = T.convert_delta_time(x*UNITS[unit], epoch1=text,
        epoch2=(2000, 1, 1, 0, 0, 0))
    c.close(r, x*UNITS[unit]-(datetime.datetime(2000, 1, 1)-d0
        ).total_seconds(), 'text-epoch', rtol=1e-12, atol=1e-5)
    c.raises(ValueError, 'bad-units', T.parse_date_string,
        f'fortnights since {text}')
    c.raises(ValueError, 'bad-format', T.parse_date_string, 'seconds since')
