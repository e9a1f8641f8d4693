"""R03: reading low degree SLR fields and averaging weekly ones."""
import calendar
import datetime
import os
import pathlib
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv.objs import snap, same

check = Check('R03', 'each case writes a weekly (GSFC) or monthly (CSR) file '
    'of degree 2 to 5 coefficients with generated numbers, or draws a weekly '
    'series and output dates, and compares every coefficient, error and date '
    'of the readers and averages with what was written')

LM = [(l, m) for l in range(2, 6) for m in range(l+1)] + [(6, 1)]
MJD0 = datetime.date(1858, 11, 17)


def mjd(d):
    return (d-MJD0).days


def q(x, fmt):
    """the number a file holds"""
    return float(format(x, fmt))


def csr(c, path, n=None, start=None):
    n = c.int(1, 8) if n is None else n
    dfmt = c.pick('E', 'D')
    mean = np.zeros((4, 7, 7))
    for l, m in LM:
        mean[:, l, m] = [q(x, '.10E') for x in c.rng.standard_normal(4)*
            [1e-6, 1e-6, 1e-12, 1e-12]]
        if m == 0:
            mean[1::2, l, m] = 0
    lines = ['some header text', 'mean field over the period', '='*80]
    for l, m in LM:
        lines.append(f' {l} {m} '+' '.join(f'{x:.10E}' for x in mean[:, l, m]
            ).replace('E', dfmt))
    lines += ['', 'end of header']
    y, mo = (c.int(1993, 2022), c.int(1, 12)) if start is None else start
    out = np.zeros((4, 7, 7, n))
    t, md = np.zeros(n), np.zeros(n)
    for k in range(n):
        nd = calendar.monthrange(y, mo)[1]
        a = datetime.date(y, mo, 1)
        b = a+datetime.timedelta(days=nd)
        lines.append(f'{k+1:4d} {c.int(1, 9)} {c.int(100, 999)} {y} {mo} '
            f'{mjd(a):.2f} {mjd(b):.2f}')
        md[k] = .5*(mjd(a)+mjd(b))
        yd = 366 if calendar.isleap(y) else 365
        t[k] = y+((a-datetime.date(y, 1, 1)).days+nd/2)/yd
        for l, m in LM:
            v = [q(x, '.6f') for x in c.rng.standard_normal(6)]
            if m == 0:
                v[1] = v[3] = v[5] = 0
            lines.append(f' {l} {m} '+' '.join(f'{x:.6f}' for x in v))
            out[:2, l, m, k] = mean[:2, l, m]+np.array(v[:2])*1e-10
            out[2:, l, m, k] = np.hypot(mean[2:, l, m], np.array(v[4:])*1e-10)
        y, mo = (y, mo+1) if mo < 12 else (y+1, 1)
    with open(path, 'w') as f:
        f.write('\n'.join(lines)+'\n')
    return out, t, md


def gsfc(c, path, n=None, t0=None):
    n = c.int(1, 12) if n is None else n
    lines = ['Title: weekly fields', 'UPDATE: x', 'Product:']
    out = np.zeros((2, 7, 7, n))
    t0 = c.rng.uniform(1994, 2020) if t0 is None else t0
    t = np.array([q(t0+7*k/365.25, '.6f') for k in range(n)])
    d0 = c.int(49000, 58000)
    md = d0+7.0*np.arange(n)
    for k in range(n):
        lines.append(f'{md[k]:.1f} {t[k]:.6f}')
        for l, m in LM:
            v = [q(x, '.12E') for x in c.rng.standard_normal(2)*1e-6]
            if m == 0:
                v[1] = 0
            lines.append(f'{l} {m} {v[0]:.12E} {v[1]:.12E}')
            out[:, l, m, k] = v
    with open(path, 'w') as f:
        f.write('\n'.join(lines)+'\n')
    return out, t, md


@check.section('csr', quick=40, thorough=400)
def read_csr(c):
    path = os.path.join(c.scratch(), 'CSR_Monthly_5x5_Gravity_Harmonics.txt')
    out, t, md = csr(c, path)
    c.note(n=len(t))
    r = g.read_SLR_harmonics(path if c.chance(.5) else pathlib.Path(path),
        HEADER=True)
    c.close(r['clm'], out[0], 'clm', rtol=1e-12, atol=1e-22)
    c.close(r['slm'], out[1], 'slm', rtol=1e-12, atol=1e-22)
    c.close(r['error']['clm'], out[2], 'eclm', rtol=1e-10, atol=1e-24)
    c.close(r['error']['slm'], out[3], 'eslm', rtol=1e-10, atol=1e-24)
    c.close(r['MJD'], md, 'mjd', rtol=0, atol=1e-6)
    c.close(r['time'], t, 'time', rtol=0, atol=1e-9)


@check.section('gsfc', quick=40, thorough=400)
def read_gsfc(c):
    path = os.path.join(c.scratch(), 'gsfc_slr_5x5c61s61.txt')
    out, t, md = gsfc(c, path)
    scale = c.pick(None, 1e-10, 2.5)
    c.note(n=len(t), scale=scale)
    r = g.read_SLR_harmonics(path if c.chance(.5) else pathlib.Path(path),
        **({} if scale is None else dict(SCALE=scale)))
    c.close(r['clm'], out[0]*(scale or 1), 'clm', rtol=1e-14)
    c.close(r['slm'], out[1]*(scale or 1), 'slm', rtol=1e-14)
    c.close(r['MJD'], md, 'mjd', rtol=0, atol=1e-6)
    c.close(r['time'], t, 'time', rtol=0, atol=1e-12)


@check.section('missing', quick=3, thorough=3)
def missing(c):
    f = c.cycle('gsfc_slr_5x5c61s61.txt', 'CSR_Monthly_5x5_Gravity_Harmonics.txt',
        'other.txt')
    c.note(name=f)
    c.raises(FileNotFoundError if c.index < 2 else Exception, 'missing',
        g.read_SLR_harmonics, pathlib.Path(c.scratch())/f)


@check.section('average', quick=80, thorough=800)
def average(c):
    """monthly values are means of the days around the date"""
    n = c.int(8, 60)
    t = c.rng.uniform(2000, 2018) + 7*np.arange(n)/365.25
    if c.chance(.3):
        t = t[c.rng.random(n) > .2]
    n = len(t)
    d = c.rng.standard_normal(n)
    k = c.pick(28, 28, 14, 7, 30, c.int(1, 40))
    date = np.sort(c.rng.uniform(t[0], t[-1], c.int(1, 6)))
    neighbors = {} if k == 28 and c.chance(.7) else dict(NEIGHBORS=k)
    date_in = date if c.chance(.7) else list(date)
    keep = snap(t, d, date_in)
    c.note(n=n, neighbors=k, dates=date)
    r = g.convert_weekly(t, d, DATE=date_in, **neighbors)
    c.ok(same(keep, snap(t, d, date_in)), 'pure')
    # days with their weekly value, offset -3.5, -2.5, ... from the epoch
    days = (t[:, None]+(np.arange(7)-3.5)/365.25).ravel()
    vals = np.repeat(d, 7)
    for i, D in enumerate(date):
        dist = np.abs(days-D)
        o = np.argsort(dist, kind='stable')
        if k < len(o) and dist[o[k]]-dist[o[k-1]] < 1e-6:
            # two days equally far away: either belongs to the mean
            continue
        o = o[:k]
        c.close(r['time'][i], days[o].mean(), 'mean-date', rtol=0, atol=1e-9)
        c.close(r['data'][i], vals[o].mean(), 'mean-value', rtol=1e-9, atol=1e-12)
    m = np.floor(12*(np.asarray(r['time'])-2002)+1)
    u, cnt = np.unique(m, return_counts=True)
    once = np.isin(m, u[cnt == 1])
    c.close(np.atleast_1d(r['month'])[once], m[once], 'month', rtol=0)
    const = g.convert_weekly(t, np.full(n, 3.25), DATE=date, **neighbors)
    c.close(const['data'], np.full(len(date), 3.25), 'constant', rtol=1e-14)
