"""R04: SLR replacements of low degree coefficients."""
import calendar
import datetime
import os
import pathlib
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from checks import R03

check = Check('R04', 'each case writes a file of satellite laser ranging '
    'solutions in one of the documented layouts (CSR, GFZ, GravIS, TN-05/07/'
    '11/14, LARES, GSFC) with generated numbers, dates, gaps and invalid '
    'lines, and compares values, errors, dates and months of the reader with '
    'what was written', ['formal errors of GravIS files are accepted in '
    'either of the two units the code and its comments give (1e-10, 1e-12)'])

MJD0 = datetime.date(1858, 11, 17)


def yearfrac(d, half=0.0):
    n = 366 if calendar.isleap(d.year) else 365
    return d.year+((d-datetime.date(d.year, 1, 1)).days+half)/n


class Record:
    """months of a mission with the first day of the data of each"""
    def __init__(self, c, n=None, lo=4, special=True):
        n = c.int(1, 20) if n is None else n
        k = lo + np.cumsum(c.rng.integers(1, 3, n) if c.chance(.6) else np.ones(n, int))
        self.months = k
        self.start = []
        for m in k:
            y, mo = divmod(int(m)-1, 12)
            d = datetime.date(2002+y, mo+1, 1)
            self.start.append(d+datetime.timedelta(days=c.int(-8, 10)))
        self.mid = np.array([2002+(m-.5)/12 for m in k])
        # some solutions start at noon
        self.half = np.where(c.rng.random(n) < .2, .5, 0)
        self.n = n
        # accelerometer shutoffs: the data of a month are those of the month
        # before, its neighbors are regular
        i = [i for i in range(2, n-2) if (np.diff(k[i-2:i+3]) == 1).all()]
        self.special = bool(i) and special and c.chance(.5)
        if self.special:
            i = c.pick(*i)
            self.mid[i] -= 17/365.25
            self.start[i] -= datetime.timedelta(days=20)
            for j in range(i-2, i+3):
                y, mo = divmod(int(k[j])-(j == i)-1, 12)
                self.start[j] = datetime.date(2002+y, mo+1, 1)+datetime.timedelta(
                    days=c.int(-3, 3)+8*(j == i))

    @property
    def first(self):
        return np.array([yearfrac(d, h) for d, h in zip(self.start, self.half)])


def num(c, n, scale=1e-7, digits=12):
    return np.array([float(f'{x:.{digits}E}')
        for x in c.rng.standard_normal(n)*scale])


def small(c, n):
    return np.array([float(f'{x:.4f}') for x in c.rng.uniform(.01, 9, n)])


def put(path, lines):
    with open(path, 'w') as f:
        f.write('\n'.join(lines)+'\n')


HEAD = ['TITLE: Replacement coefficients', 'DESCRIPTION: x',
    '  1.0 this is still the header']


def span_lines(c, r, cols, flag=None, skip=None, end=True):
    """MJD, year, then value, anomaly, error of each coefficient"""
    lines, mjd = [], []
    for t in range(r.n):
        d = (r.start[t]-MJD0).days+r.half[t]
        mjd.append(d)
        w = [f'{d:.1f}', f'{r.first[t]:.6f}']
        for k, (v, e) in enumerate(cols):
            if skip is not None and k > 0 and skip[t]:
                w += ['NaN', 'NaN', 'NaN']
                continue
            w += [f'{v[t]:.12E}', f'{c.rng.standard_normal():.4f}',
                f'{e[t]:.4f}']
        if end:
            w += [f'{d+30:.1f}', f'{r.first[t]+.08:.6f}']
        lines.append('  '.join(w) + (flag(t) if flag else ''))
        if c.chance(.1):
            lines.append('')
    return lines


def compare(c, got, r, t, pairs, keep=None):
    k = slice(None) if keep is None else keep
    for key, want, tol in pairs:
        c.close(got[key], want[k], key, rtol=1e-6 if tol else 0, atol=tol)
    c.close(got['time'], t[k], 'time', rtol=0, atol=2.5e-4)
    c.close(got['month'], r.months[k], 'month', rtol=0)


def error(c, got, e, key='error', units=(1e-10,)):
    got = np.asarray(got)
    c.ok(got.shape == e.shape and any(np.allclose(got, e*u, rtol=1e-6, atol=0)
        for u in units), key, got=got, want=e)


def header(c, word):
    """files without header text are read with HEADER=False"""
    if c.chance(.2):
        return [], dict(HEADER=False)
    return HEAD+[word], {}


@check.section('C20', quick=80, thorough=800)
def c20(c):
    kind = c.cycle('CSR', 'GFZ', 'GravIS', 'TN', 'TN7')
    # TN-05 and TN-07 hold several solutions of a month
    r = Record(c, special=kind != 'TN7')
    v, e = num(c, r.n, 1e-4), small(c, r.n)
    c.note(kind=kind, months=r.months)
    folder = c.scratch()
    first = r.first
    if kind == 'CSR':
        path = os.path.join(folder, c.pick('C20_RL05.txt', 'C20_RL06.txt'))
        a = small(c, r.n)
        put(path, ['# comment'] + [f'{r.mid[t]:.4f} {v[t]:.12E} 0.5 {e[t]:.4f} '
            f'{a[t]:.4f} {r.mid[t]-.04:.4f} {r.mid[t]+.04:.4f}' for t in range(r.n)])
        aod = c.pick(None, True, False)
        got = g.SLR.C20(path, **({} if aod is None else dict(AOD=aod)))
        want = v if aod is False else v-a*1e-10
        c.close(got['data'], want, 'CSR-data', rtol=0, atol=1e-15)
        error(c, got['error'], e)
        compare(c, got, r, r.mid, [])
    elif kind == 'GFZ':
        path = os.path.join(folder, 'GFZ_RL06_C20_SLR.dat')
        h, kw = header(c, 'PRODUCT:')
        use = (c.rng.random(r.n) > .2) | r.special
        use[0] = True
        mark = c.pick('  G*', '  Gm')
        put(path, h+span_lines(c, r, [(v, e)], lambda t: mark if use[t] else '  -'))
        got = g.SLR.C20(pathlib.Path(path), **kw)
        c.close(got['data'], v[use], 'GFZ-data', rtol=1e-13)
        error(c, got['error'], e[use])
        compare(c, got, r, first, [], use)
    elif kind == 'GravIS':
        path = os.path.join(folder, 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0002.dat')
        h, kw = header(c, 'PRODUCT:')
        put(path, h+span_lines(c, r, [(v, e)]+[(num(c, r.n), small(c, r.n))
            for _ in range(3)]))
        got = g.SLR.C20(path, **kw)
        c.close(got['data'], v, 'GravIS-data', rtol=1e-13)
        error(c, got['error'], e, units=(1e-10, 1e-12))
        compare(c, got, r, first, [])
    elif kind == 'TN':
        path = os.path.join(folder, c.pick('TN-11_C20_SLR.txt',
            'TN-14_C30_C20_GSFC_SLR.txt'))
        h, kw = header(c, c.pick('Product:', 'PRODUCT:'))
        skip = (c.rng.random(r.n) < .3) & (not r.special)
        put(path, h+span_lines(c, r, [(v, e), (num(c, r.n), small(c, r.n))],
            skip=skip))
        got = g.SLR.C20(path, **kw)
        c.close(got['data'], v, 'TN-data', rtol=1e-13)
        error(c, got['error'], e)
        c.close(got['time'], first, 'exact-time', rtol=0, atol=1e-8)
        compare(c, got, r, first, [])
    else:
        path = os.path.join(folder, c.pick('TN-05_C20_SLR.txt',
            'TN-07_C20_SLR.txt'))
        h, kw = header(c, 'PRODUCT:')
        lines, T = [], []
        for t in range(r.n):
            d = (r.start[t]-MJD0).days+r.half[t]
            good = [f'{d:.1f} {first[t]:.6f} {v[t]:.12E} 0.1 {e[t]:.4f}']
            if c.chance(.25):
                # a second solution of the month, marked for shortened data
                shift = c.int(1, 3)
                good[0] += ' *'
                other = (f'{d+shift:.1f} {first[t]:.6f} {v[t]*2:.12E} 0.1 '
                    f'{e[t]*2:.4f}')
                good.insert(c.int(0, 1), other)
            lines += good
            if c.chance(.1):
                lines.append('')
        put(path, h+lines)
        got = g.SLR.C20(path, **kw)
        c.close(got['data'], v, 'TN7-data', rtol=1e-13)
        error(c, got['error'], e)
        c.close(got['time'], first, 'exact-time', rtol=0, atol=1e-8)
        compare(c, got, r, first, [])


def lares(c, r, path, mean):
    v = np.array([float(f'{x:.6f}') for x in c.rng.standard_normal(r.n)])
    put(path, ['  time   value'] + [f'{r.mid[t]:.4f} {v[t]:.6f} 0.0'
        for t in range(r.n)])
    return 1e-10*v+mean


def csr_fields(c, path):
    y, mo = c.int(2002, 2020), c.int(1, 12)
    n = c.int(1, 9)
    out, t, md = R03.csr(c, path, n=n, start=(y, mo))
    months = 12*(y-2002)+mo+np.arange(len(t))
    return out, t, months


@check.section('C30', quick=60, thorough=600)
def c30(c):
    kind = c.cycle('TN14', 'LARES', 'GravIS', 'CSR')
    c.note(kind=kind)
    r = Record(c)
    v, e = num(c, r.n), small(c, r.n)
    first = r.first
    folder = c.scratch()
    if kind == 'TN14':
        path = os.path.join(folder, 'TN-14_C30_C20_GSFC_SLR.txt')
        h, kw = header(c, 'Product:')
        skip = (c.rng.random(r.n) < .3) & (not r.special)
        skip[0] = False
        put(path, h+span_lines(c, r, [(num(c, r.n, 1e-4), small(c, r.n)),
            (v, e)], skip=skip, end=c.chance(.7)))
        got = g.SLR.C30(path, **kw)
        c.close(got['data'], v[~skip], 'TN14-data', rtol=1e-13)
        error(c, got['error'], e[~skip])
        c.close(got['time'], first[~skip], 'exact-time', rtol=0, atol=1e-8)
        compare(c, got, r, first, [], ~skip)
    elif kind == 'LARES':
        path = os.path.join(folder, 'C30_LARES_filtered.txt')
        kw = {} if c.chance(.5) else dict(C30_MEAN=9.5e-7)
        want = lares(c, r, path, kw.get('C30_MEAN', 9.5717395773300e-07))
        got = g.SLR.C30(path, **kw)
        c.close(got['data'], want, 'LARES-data', rtol=1e-13)
        c.close(got['error'], np.zeros(r.n), 'LARES-error', rtol=0)
        compare(c, got, r, r.mid, [])
    elif kind == 'GravIS':
        path = os.path.join(folder, 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0002.dat')
        h, kw = header(c, 'PRODUCT:')
        other = [(num(c, r.n), small(c, r.n)) for _ in range(3)]
        put(path, h+span_lines(c, r, [other[0], (v, e)]+other[1:]))
        got = g.SLR.C30(path, **kw)
        c.close(got['data'], v, 'GravIS-data', rtol=1e-13)
        error(c, got['error'], e, units=(1e-10, 1e-12))
        compare(c, got, r, first, [])
    else:
        path = os.path.join(folder, 'CSR_Monthly_5x5_Gravity_Harmonics.txt')
        out, t, months = csr_fields(c, path)
        got = g.SLR.C30(path)
        c.close(got['data'], out[0, 3, 0], 'CSR-data', rtol=1e-12, atol=1e-22)
        c.close(got['error'], out[2, 3, 0], 'CSR-error', rtol=1e-10)
        c.close(got['time'], t, 'CSR-time', rtol=0, atol=1e-9)
        c.close(np.atleast_1d(got['month']), months, 'CSR-month', rtol=0)


def weekly(c, folder):
    path = os.path.join(folder, 'gsfc_slr_5x5c61s61.txt')
    n = c.int(20, 60)
    t0 = c.rng.uniform(2002.3, 2019)
    out, t, _ = R03.gsfc(c, path, n=n, t0=t0)
    k = np.arange(int(np.ceil(12*(t[0]+.06-2002)+.5)),
        int(np.floor(12*(t[-1]-.06-2002)+.5))+1)
    date = 2002+(k-.5)/12
    if len(date) > 4 and c.chance(.5):
        # a special month: centered in the month before
        date[c.int(2, len(date)-3)] -= 17/365.25
    return path, out, t, k, date


def monthly(t, d, date):
    """means of the 28 days around the dates, None when ambiguous"""
    days = (t[:, None]+(np.arange(7)-3.5)/365.25).ravel()
    vals = np.repeat(d, 7)
    res = []
    for D in date:
        dist = np.abs(days-D)
        o = np.argsort(dist)
        res.append(None if dist[o[28]]-dist[o[27]] < 1e-6
            else (days[o[:28]].mean(), vals[o[:28]].mean()))
    return res


def averaged(c, got, key, t, d, date, what, tol=1e-9):
    for i, w in enumerate(monthly(t, d, date)):
        if w is not None:
            c.close(got['time'][i], w[0], what+'-time', rtol=0, atol=tol)
            c.close(got[key][i], w[1], what+'-'+key, rtol=1e-9, atol=1e-20)


@check.section('C40-C50', quick=60, thorough=600)
def c4050(c):
    kind = c.cycle('GSFC', 'LARES', 'CSR', 'replacement')
    deg = 5 if kind == 'replacement' else c.pick(4, 5)
    fn = g.SLR.C40 if deg == 4 else g.SLR.C50
    c.note(kind=kind, degree=deg)
    r = Record(c)
    folder = c.scratch()
    if kind == 'GSFC':
        path, out, t, months, date = weekly(c, folder)
        got = fn(path, DATE=date)
        averaged(c, got, 'data', t, out[0, deg, 0], date, 'GSFC')
        c.close(got['error'], np.zeros(len(date)), 'GSFC-error', rtol=0)
        c.close(np.atleast_1d(got['month']), months, 'GSFC-month', rtol=0)
    elif kind == 'LARES':
        path = os.path.join(folder, f'C{deg}0_LARES_filtered.txt')
        kw = {} if c.chance(.5) else {f'C{deg}0_MEAN': 4.5e-7}
        want = lares(c, r, path, 4.5e-7 if kw else 0)
        got = fn(path, **kw)
        c.close(got['data'], want, 'LARES-data', rtol=1e-13)
        compare(c, got, r, r.mid, [])
    elif kind == 'CSR':
        path = os.path.join(folder, 'CSR_Monthly_5x5_Gravity_Harmonics.txt')
        out, t, months = csr_fields(c, path)
        got = fn(path)
        c.close(got['data'], out[0, deg, 0], 'CSR-data', rtol=1e-12, atol=1e-22)
        c.close(got['error'], out[2, deg, 0], 'CSR-error', rtol=1e-10)
        c.close(got['time'], t, 'CSR-time', rtol=0, atol=1e-9)
        c.close(np.atleast_1d(got['month']), months, 'CSR-month', rtol=0)
    else:
        path = os.path.join(folder, 'GSFC_SLR_C20_C30_C50_GSM_replacement.txt')
        v, e = num(c, r.n), small(c, r.n)
        first = r.first
        h, kw = header(c, 'Product:')
        skip = (c.rng.random(r.n) < .3) & (not r.special)
        skip[0] = False
        lines = []
        for t in range(r.n):
            d = (r.start[t]-MJD0).days+r.half[t]
            nan = ['NaN']*3
            w = [f'{d:.1f}', f'{first[t]:.6f}', '-4.8E-04', '0.1', '0.2']
            w += nan if skip[t] else ['9.5E-07', '0.3', '0.4']
            w += [f'{d+30:.1f}', f'{first[t]+.08:.6f}']
            w += nan if skip[t] else [f'{v[t]:.12E}', '0.1', f'{e[t]:.4f}']
            lines.append(' '.join(w))
        put(path, h+lines)
        got = fn(path, **kw)
        c.close(got['data'], v[~skip], 'replacement-data', rtol=1e-13)
        error(c, got['error'], e[~skip])
        c.close(got['time'], first[~skip], 'exact-time', rtol=0, atol=1e-8)
        compare(c, got, r, first, [], ~skip)


@check.section('CS2', quick=60, thorough=600)
def cs2(c):
    kind = c.cycle('weekly-axis', 'GSFC', 'CSR', 'GravIS')
    m = c.pick(1, 2)
    c.note(kind=kind, order=m)
    r = Record(c)
    folder = c.scratch()
    C, S = num(c, r.n), num(c, r.n)
    if kind == 'weekly-axis':
        path = os.path.join(folder, f'GSFC_C2{m}_S2{m}.txt')
        n = c.int(20, 60)
        t = np.round(c.rng.uniform(2002.3, 2019)+7*np.arange(n)/365.25, 4)
        t = t.astype('f').astype(float)
        C, S = num(c, n), num(c, n)
        put(path, ['# comment']+[f'{t[k]:.4f} {C[k]:.12E} {S[k]:.12E}'
            for k in range(n)])
        k = np.arange(int(np.ceil(12*(t[0]+.06-2002)+.5)),
            int(np.floor(12*(t[-1]-.06-2002)+.5))+1)
        date = 2002+(k-.5)/12
        got = g.SLR.CS2(path, DATE=date)
        # the file holds dates in single precision: a day is 20 units
        days = (np.repeat(t, 7)+(np.mod(np.arange(7*n), 7)-3.5)/365.25)
        for i, D in enumerate(date):
            dist = np.abs(days-D)
            o = np.argsort(dist)
            if dist[o[28]]-dist[o[27]] < 6e-4:
                continue
            o = o[:28]
            c.close(got['time'][i], days[o].mean(), 'axis-time', rtol=0, atol=3e-4)
            c.close(got['C2m'][i], np.repeat(C, 7)[o].mean(), 'axis-C', rtol=1e-9, atol=1e-20)
            c.close(got['S2m'][i], np.repeat(S, 7)[o].mean(), 'axis-S', rtol=1e-9, atol=1e-20)
        c.close(np.atleast_1d(got['month']), k, 'axis-month', rtol=0)
        for key in ('eC2m', 'eS2m'):
            c.close(got[key], np.zeros(len(date)), key, rtol=0)
    elif kind == 'GSFC':
        path, out, t, months, date = weekly(c, folder)
        kw = {} if m == 1 and c.chance(.5) else dict(ORDER=m)
        got = g.SLR.CS2(path, DATE=date, **kw)
        averaged(c, got, 'C2m', t, out[0, 2, m], date, 'GSFC')
        averaged(c, got, 'S2m', t, out[1, 2, m], date, 'GSFC')
        c.close(np.atleast_1d(got['month']), months, 'GSFC-month', rtol=0)
    elif kind == 'CSR':
        path = os.path.join(folder, f'C2{m}_S2{m}_RL06.txt')
        a, b, ec, es = (small(c, r.n) for _ in range(4))
        put(path, ['# comment']+[f'{r.mid[t]:.4f} {C[t]:.12E} {S[t]:.12E} '
            f'{ec[t]:.4f} {es[t]:.4f} {a[t]:.4f} {b[t]:.4f} {r.mid[t]-.04:.4f} '
            f'{r.mid[t]+.04:.4f}' for t in range(r.n)])
        got = g.SLR.CS2(path, ORDER=m)
        c.close(got['C2m'], C-a*1e-10, 'CSR-C', rtol=0, atol=1e-16)
        c.close(got['S2m'], S-b*1e-10, 'CSR-S', rtol=0, atol=1e-16)
        error(c, got['eC2m'], ec, 'CSR-eC')
        error(c, got['eS2m'], es, 'CSR-eS')
        compare(c, got, r, r.mid, [])
    else:
        path = os.path.join(folder, 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0002.dat')
        h, kw = header(c, 'PRODUCT:')
        first = r.first
        ec, es = small(c, r.n), small(c, r.n)
        put(path, h+span_lines(c, r, [(num(c, r.n), small(c, r.n)),
            (num(c, r.n), small(c, r.n)), (C, ec), (S, es)]))
        got = g.SLR.CS2(path, **kw)
        c.close(got['C2m'], C, 'GravIS-C', rtol=1e-13)
        c.close(got['S2m'], S, 'GravIS-S', rtol=1e-13)
        error(c, got['eC2m'], ec, 'GravIS-eC', units=(1e-10, 1e-12))
        error(c, got['eS2m'], es, 'GravIS-eS', units=(1e-10, 1e-12))
        compare(c, got, r, first, [])


@check.section('special', quick=30, thorough=300)
def special(c):
    """the special months of the mission in span-dated series"""
    p, q = c.cycle((118, 119), (160, 161), (120, 121), (202, 203))
    months = np.arange(p-c.int(1, 6), q+c.int(2, 6))
    lines, v = [], num(c, len(months), 1e-4)
    for k, m in enumerate(months):
        m = p if m == q and (p, q) in ((118, 119), (160, 161)) else \
            q if m == p and (p, q) in ((120, 121), (202, 203)) else m
        y, mo = divmod(int(m)-1, 12)
        d = (datetime.date(2002+y, mo+1, 1)-MJD0).days + c.int(-3, 3)
        lines.append(f'{d:.1f} {2002+(m-1)/12:.6f} {v[k]:.12E} 0.1 0.2 '
            f'{v[k]/2:.12E} 0.1 0.2 {d+30:.1f} 2002.0')
    path = os.path.join(c.scratch(), 'TN-14_C30_C20_GSFC_SLR.txt')
    put(path, HEAD+['Product:']+lines)
    c.note(special=(p, q), first=int(months[0]), n=len(months))
    for fn, w in ((g.SLR.C20, v), (g.SLR.C30, v/2)):
        got = fn(path)
        c.close(got['month'], months, 'month', rtol=0)
        c.close(got['data'], w, 'data', rtol=1e-12)


@check.section('missing', quick=10, thorough=10)
def missing(c):
    fn = c.cycle('C20', 'C30', 'C40', 'C50', 'CS2')
    c.note(fn=fn)
    c.raises(FileNotFoundError, 'missing', getattr(g.SLR, fn),
        os.path.join(c.scratch(), 'TN-14_C30_C20_GSFC_SLR.txt'))
