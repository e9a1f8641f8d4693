"""T02: GRACE/GRACE-FO months."""
import calendar
import datetime
import numpy as np
import gravity_toolkit as g
from rv.core import Check, Skip
from rv.objs import snap, same

T = g.time
check = Check('T02', 'each case draws calendar dates or a mission record '
    '(random gaps, documented special months, start and end) and compares the '
    'month numbers with the calendar and with the record that produced the '
    'dates', ['a special month is judged when its documented rule can decide '
    'it from the surrounding months of the record'])

BACK = ((118, 119), (160, 161))     # month centred in the month before
FORE = ((120, 121), (202, 203))     # month centred in the month after


@check.section('numbers', quick=40, thorough=400)
def numbers(c):
    m = np.arange(-30, 400) if c.index == 0 else \
        c.rng.integers(-500, 2000, c.int(1, 20))
    c.note(first=int(m[0]), n=len(m))
    y, mo = T.grace_to_calendar(m)
    want = [divmod(int(k)-1, 12) for k in m]
    c.close(y, [2002+q for q, _ in want], 'year', rtol=0)
    c.close(mo, [r+1 for _, r in want], 'month', rtol=0)
    c.close(T.calendar_to_grace(y, month=mo), m, 'inverse', rtol=0)
    c.close(T.calendar_to_grace(y.astype(float), month=mo.astype(float)), m,
        'inverse-float', rtol=0)
    a, b = T.grace_to_calendar(int(m[0]))
    c.eq((int(a), int(b)), (2002+want[0][0], want[0][1]+1), 'scalar')
    c.eq(int(T.calendar_to_grace(int(a), month=int(b))), int(m[0]),
        'scalar-inverse')
    # dates in decimal years (away from the ends of the month)
    t = 2002 + (m-1+c.rng.uniform(.05, .95, len(m)))/12
    c.close(T.calendar_to_grace(t), m, 'decimal', rtol=0)
    t = T.convert_calendar_decimal(np.asarray(y, float), np.asarray(mo, float))
    c.close(T.calendar_to_grace(t), m, 'mid-month', rtol=0)
    c.close(T.calendar_to_grace(float(t[0])), m[0], 'decimal-scalar', rtol=0)
    c.close(T.calendar_to_grace(2002+(m-1+c.rng.uniform(-.4, .4, len(m)))/12,
        around=np.round), m, 'rounded', rtol=0)


@check.section('plain', quick=40, thorough=400)
def plain(c):
    """records without coincident months are left alone"""
    n = c.int(1, 40)
    m = 4+np.cumsum(c.rng.integers(1, 4, n))
    c.note(n=n, first=int(m[0]))
    keep = snap(m)
    r = T.adjust_months(m)
    c.ok(same(keep, snap(m)), 'input-untouched')
    c.close(np.atleast_1d(r), m, 'unchanged', rtol=0)
    c.eq(int(T.adjust_months(np.int64(m[0]))), int(m[0]), 'scalar')


@check.section('records', quick=150, thorough=3000)
def records(c):
    a = c.int(4, 230)
    b = a+c.int(0, 120) if c.chance(.6) else 240
    # around the special months in most cases
    if c.chance(.8):
        a = c.pick(117, 118, 119, 120, 158, 160, 200, 202)-c.int(0, 6)
        b = a+c.int(3, 14)
    m = np.arange(a, b+1)
    m = m[c.rng.random(len(m)) > c.pick(0, .1, .4)]
    if c.chance(.3):
        # the record ends or starts with a special month
        q = c.pick([q for _, q in BACK+FORE if a < q <= b] or [b])
        m = m[m <= q] if c.chance(.6) else m[m >= q-1]
    if len(m) == 0:
        raise Skip
    kinds = [p for p in BACK+FORE if c.chance(.6)]
    # JPL and CSR/GFZ shift different months of 2011/12
    if BACK[0] in kinds and FORE[0] in kinds:
        kinds.remove(c.pick(BACK[0], FORE[0]))
    seen, judged = shift(m, kinds)
    # a later special month is judged from already adjusted neighbours only
    c.note(first=int(a), last=int(b), n=len(m), special=judged)
    r = np.atleast_1d(T.adjust_months(seen))
    c.close(r, m, 'record', rtol=0, observed_months=seen.tolist())


def shift(m, kinds):
    """the months of the dates of the record, special ones shifted"""
    seen = m.copy()
    judged = []
    for p, q in kinds:
        if p not in m or q not in m:
            continue
        i = int(np.nonzero(m == p)[0][0])
        if (p, q) in BACK:
            if not (i == 0 or m[i-1] == p-1):
                continue
            seen[i+1] = p
        else:
            ok = (i > 0 and m[i-1] == q-2) or (m[i+2] == q+1 if
                i+2 < len(m) else i > 0)
            if not ok:
                continue
            seen[i] = q
        judged.append((p, q))
    return seen, judged


@check.section('gaps', quick=4, thorough=4)
def gaps(c):
    """every pattern of gaps around each special month"""
    p, q = (BACK+FORE)[c.index]
    around = np.r_[p-4:p, q+1:q+5]
    n = 0
    for k in range(256):
        keep = np.array([k >> j & 1 for j in range(8)], bool)
        m = np.sort(np.r_[around[keep], p, q])
        seen, judged = shift(m, [(p, q)])
        if judged:
            n += 1
            c.close(T.adjust_months(seen), m, 'pattern', rtol=0,
                observed_months=seen.tolist())
    c.note(special=(p, q), patterns=n)


@check.section('centers', quick=30, thorough=300)
def centers(c):
    """the special months from the dates of the data used"""
    m = np.arange(c.int(100, 116), c.int(123, 157))
    kind = c.cycle('CSR', 'JPL')
    t = []
    for k in m:
        y, mo = divmod(int(k)-1, 12)
        n = calendar.monthrange(2002+y, mo+1)[1]
        d = datetime.date(2002+y, mo+1, 1).timetuple().tm_yday-1+n/2
        if kind == 'CSR' and k == 119:
            d = 303.5
        elif kind == 'JPL' and k == 120:
            y, d = 10, 0.5
        t.append(2002+y+d/(366 if calendar.isleap(2002+y) else 365))
    c.note(kind=kind, first=int(m[0]), last=int(m[-1]))
    r = T.adjust_months(T.calendar_to_grace(np.array(t)))
    c.close(r, m, 'months', rtol=0)


@check.section('any', quick=60, thorough=1000)
def anyseq(c):
    """months that occur once are kept, no month is lost"""
    n = c.int(1, 20)
    m = np.sort(c.rng.integers(4, 4+max(2, int(n*c.pick(.5, 1, 3))), n))
    c.note(months=m)
    r = np.atleast_1d(T.adjust_months(m))
    u, k = np.unique(m, return_counts=True)
    once = np.isin(m, u[k == 1])
    c.close(r[once], m[once], 'once', rtol=0)
    c.ok(np.all(np.abs(r-m) <= 1), 'neighbour', got=r)
    many = np.isin(m, u[k > 2])
    c.close(r[many], m[many], 'many', rtol=0)
