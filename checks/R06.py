"""R06: reading geocenter (degree one) solutions."""
import calendar
import datetime
import gzip
import io
import os
import pathlib
import netCDF4
import numpy as np
import gravity_toolkit as g
from rv.objs import othercase
from rv.core import Check
from checks.R04 import yearfrac, MJD0

check = Check('R06', 'each case writes a degree one file in the layout of one '
    'of the providers (TN-13, Tellus, UCI text and netCDF4, Swenson, SLR with '
    'and without dealiasing, GravIS) with generated numbers and months and '
    'compares coefficients, errors, dates and months with what was written')

R0 = 1e3*6378137.0*(1-1/298.257223563)**(1/3)


class Months:
    """months of a record, each with its middle near the middle of the month"""
    def __init__(self, c):
        n = self.n = c.int(1, 30)
        self.k = k = c.int(4, 60) + np.cumsum(c.rng.integers(1, 4, n))
        self.start, self.end, self.mid = [], [], []
        for m in k:
            y, mo = divmod(int(m)-1, 12)
            y, mo = 2002+y, mo+1
            a = datetime.date(y, mo, 1)+datetime.timedelta(days=c.int(-3, 5))
            b = datetime.date(y, mo, 27)+datetime.timedelta(days=c.int(-4, 6))
            self.start.append(a)
            self.end.append(b)
            self.mid.append((yearfrac(a)+yearfrac(b))/2)
        self.mid = np.array(self.mid)
        # special months can be told from the others only in long records:
        # with one solution for each month the numbers are as they are
        self.year = 2002 + (k-1)//12
        self.month = np.mod(k-1, 12)+1


def coef(c, n, scale=1e-9, digits=10):
    return np.array([float(f'{x:.{digits}E}')
        for x in c.rng.standard_normal((n*3))*scale]).reshape(3, n)


def put(c, name, lines, end='\n'):
    path = os.path.join(c.scratch(), name)
    with open(path, 'w') as f:
        f.write('\n'.join(lines)+end)
    return path


def source(c, path):
    """by path, string or in another case"""
    k = c.int(0, 2)
    return othercase(c, path) if k == 2 else (path, pathlib.Path(path))[k]


def compare(c, r, m, D, E=None, tol=1e-12, t=None, ttol=1e-6):
    c.close(r.C10, D[0], 'C10', rtol=tol)
    c.close(r.C11, D[1], 'C11', rtol=tol)
    c.close(r.S11, D[2], 'S11', rtol=tol)
    if E is not None:
        c.close(r.eC10, E[0], 'eC10', rtol=tol)
        c.close(r.eC11, E[1], 'eC11', rtol=tol)
        c.close(r.eS11, E[2], 'eS11', rtol=tol)
    c.close(r.time, m.mid if t is None else t, 'time', rtol=0, atol=ttol)
    c.close(r.month, m.k, 'month', rtol=0)
    c.eq(len(r), m.n, 'length')


@check.section('tellus', quick=60, thorough=900)
def tellus(c):
    m = Months(c)
    D, E = coef(c, m.n), np.abs(coef(c, m.n, 1e-11))
    jpl = c.chance(.7)
    c.note(n=m.n, jpl=jpl)
    header = c.chance(.85)
    if jpl:
        out = ['TN-13', '  Release 6 of 2 products', 'end of header '][:3]
        fmt = 'GRCOF2 {:4d} {:4d} {: .10E} {: .10E} {:.10E} {:.10E} {}.0000 {}.0000'
        tail = lambda i: (m.start[i].strftime('%Y%m%d'),
            m.end[i].strftime('%Y%m%d'))
    else:
        out = ['degree 1', 'format:', "'(a6,2(i3,1x),4(e19.12,1x))'"]
        fmt = '{} {:3d} {:3d} {: .10E} {: .10E} {:.10E} {:.10E}'
    if not header:
        out = []
    for i in range(m.n):
        for o, (a, b, ea, eb) in enumerate([(D[0, i], 0., E[0, i], 0.),
                (D[1, i], D[2, i], E[1, i], E[2, i])]):
            args = (1, o, a, b, ea, eb)
            out.append(fmt.format(*args, *tail(i)) if jpl else
                fmt.format(f'{m.year[i]}{m.month[i]:02d}', *args))
    p = put(c, 'TN-13_GEOC_CSR_RL06.txt', out)
    kw = {} if jpl and c.chance(.5) else dict(JPL=jpl)
    if not header:
        kw['header'] = False
    r = g.geocenter().from_tellus(source(c, p), **kw)
    if jpl:
        compare(c, r, m, D, E)
    else:
        t = np.array([y + (datetime.date(y, mo, 1).timetuple().tm_yday - 1 +
            calendar.monthrange(y, mo)[1]/2)/(366 if calendar.isleap(y) else 365)
            for y, mo in zip(m.year.tolist(), m.month.tolist())])
        compare(c, r, m, D, E, t=t, ttol=.6/365)


SPECIAL = ((118, 119), (160, 161), (120, 121), (202, 203))


@check.section('special', quick=48, thorough=480)
def special(c):
    """solutions centred outside of their month keep a number of their own"""
    # CSR: Nov 2011 centred in Oct 2011, all: May 2015 centred in Apr 2015
    # JPL: Dec 2011 centred in Jan 2012, GSFC: Oct 2018 centred in Nov 2018
    p, q = SPECIAL[c.index % 4]
    kind = ('tellus', 'swenson', 'SLR', 'gravis')[c.index//4 % 4]
    ks = np.arange(p-c.int(2, 7), q+c.int(3, 7))
    n = len(ks)
    # month in which each of the solutions is centred
    where = ks.copy()
    if (p, q) in SPECIAL[:2]:
        where[ks == q] = p
    else:
        where[ks == p] = q
    mids = [datetime.date(2002+(x-1)//12, (x-1) % 12+1, 15) for x in where]
    i, = np.nonzero(where == (p if (p, q) in SPECIAL[:2] else q))
    mids[i[0]] -= datetime.timedelta(days=c.int(4, 9))
    mids[i[1]] += datetime.timedelta(days=c.int(4, 9))
    D = coef(c, n)
    c.note(special=(p, q), kind=kind, first=int(ks[0]), n=n)
    G = g.geocenter()
    if kind == 'tellus':
        out = ['end of header']
        for i, mid in enumerate(mids):
            x, y = [(mid+datetime.timedelta(days=d)).strftime('%Y%m%d')
                for d in (-10, 10)]
            out.append(f'GRCOF2 1 0 {D[0, i]:.10E} 0.0 1.0 1.0 {x}.0 {y}.0')
            out.append(f'GRCOF2 1 1 {D[1, i]:.10E} {D[2, i]:.10E} 1.0 1.0 {x}.0 {y}.0')
        r = G.from_tellus(put(c, 'TN-13.txt', out))
    elif kind == 'swenson':
        out = ['degree 1 coefficients', 'Time C10 C11 S11']
        out += [f'{yearfrac(mids[i]):.5f} ' + ' '.join(f'{x: .10E}'
            for x in D[:, i]*(5.517*6.371e8)*10) for i in range(n)]
        r = G.from_swenson(put(c, 'gad_gsm.txt', out))
    elif kind == 'SLR':
        cols = ['time', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma']
        out = [f'{yearfrac(mids[i]):.6f} '+' '.join(f'{x:.10E}' for x in
            D[[1, 2, 0], i]*(R0*np.sqrt(3)))+' 1.0 1.0 1.0' for i in range(n)]
        r = G.from_SLR(put(c, 'gct2est', out), columns=cols, AOD=False)
    else:
        out = ['PRODUCT: ']
        for i in range(n):
            y, mo = divmod(int(where[i])-1, 12)
            a = datetime.date(2002+y, mo+1, 1)+datetime.timedelta(days=c.int(-3, 3))
            w = ' '.join(f'{D[k, i]: .10E} 0.1 0.2' for k in range(3))
            out.append(f'{(a-MJD0).days}.0 {yearfrac(a):.6f} {w}')
        r = G.from_gravis(put(c, 'GEOCENTER.dat', out))
    c.close(r.month, ks, 'month', rtol=0)
    tol = 1e-12 if kind in ('tellus', 'gravis') else 1e-7
    for k, v in zip(('C10', 'C11', 'S11'), D):
        c.close(getattr(r, k), v, k, rtol=tol)


def uci_header(c, names):
    out = ['header:', '  dimensions:', '    degree: 1', '    order: 1',
        '  non-standard_attributes:', '    love_number: 0.021',
        '  global_attributes:', '    title: geocenter 2002-2020',
        '  variables:', '    mid-epoch_time:', '      long_name: mid-date',
        '      comment: 1st column']
    nth = ['1st', '2nd', '3rd'] + [f'{i}th' for i in range(4, 12)]
    for i, n in names:
        out += [f'    {n:22}:', f'      long_name: {n} coefficient',
            '      units: fully normalized', f'      comment: {nth[i]} column']
    out += ['    month:', '      description: months starting 2002-01-01',
        f'      comment: {nth[len(names)+1]} column', '',
        '# End of YAML header']
    return out


@check.section('UCI', quick=60, thorough=900)
def uci(c):
    m = Months(c)
    D, E = coef(c, m.n), np.abs(coef(c, m.n, 1e-11))
    err = c.chance(.4)
    t = np.round(m.mid, 4)
    vals = dict(C10=D[0], C11=D[1], S11=D[2])
    if err:
        vals.update(eC10=E[0], eC11=E[1], eS11=E[2])
    names = list(vals)
    if c.chance(.5):
        names = [names[i] for i in c.rng.permutation(len(names))]
    listed = [(i+1, n) for i, n in enumerate(names)]
    order = [listed[i] for i in c.rng.permutation(len(listed))] \
        if c.chance(.5) else listed
    out = uci_header(c, order)
    for i in range(m.n):
        out.append(f'{t[i]:11.4f}' + ''.join(f' {vals[n][i]: .10E}'
            for n in names) + f' {m.k[i]:03d}')
    c.note(n=m.n, err=err, names=names)
    p = put(c, 'CSR_RL06_MPIOM_SLF_iter.txt', out)
    r = g.geocenter().from_UCI(source(c, p))
    compare(c, r, m, D, E if err else None, t=t)
    bad = put(c, 'bad.txt', out[:20])
    c.raises(IOError, 'no-data', g.geocenter().from_UCI, bad)


@check.section('netCDF4', quick=60, thorough=900)
def nc(c):
    m = Months(c)
    D, E = coef(c, m.n), np.abs(coef(c, m.n, 1e-11))
    err, group = c.chance(.5), c.pick(None, 'SLF_iter')
    p = os.path.join(c.scratch(), 'geocenter.nc')
    with netCDF4.Dataset(p, 'w') as f:
        def fill(where, D, E):
            where.createDimension('time', m.n)
            data = dict(time=m.mid, month=m.k, C10=D[0], C11=D[1], S11=D[2])
            if err:
                data.update(eC10=E[0], eC11=E[1], eS11=E[2])
            for k, v in data.items():
                x = where.createVariable(k, 'i4' if k == 'month' else 'f8',
                    ('time',))
                x[:] = v
        if group:
            fill(f.createGroup('other'), D*3, E*3)
            fill(f.createGroup(group), D, E)
            if c.chance(.5):
                fill(f, -D, E*2)
        else:
            fill(f, D, E)
    comp = c.pick(None, 'gzip', 'bytes')
    c.note(n=m.n, err=err, group=group, compression=comp)
    src, kw = source(c, p), {}
    if comp:
        data = open(p, 'rb').read()
        kw['compression'] = comp
        if comp == 'gzip':
            with gzip.open(p+'.gz', 'wb') as f:
                f.write(data)
            src = p+'.gz'
        else:
            src = io.BytesIO(data)
    if group:
        kw['group'] = group
    r = g.geocenter().from_netCDF4(src, **kw)
    compare(c, r, m, D, E if err else None, tol=0)


@check.section('swenson', quick=40, thorough=600)
def swenson(c):
    m = Months(c)
    D = coef(c, m.n, 1.0)
    t = np.round(m.mid, 5)
    with_month = c.chance(.5)
    out = ['degree 1 coefficients', 'units: 1 mm',
        'Time C10 C11 S11']
    kw = {}
    if c.chance(.2):
        out, kw = [], dict(header=False)
    for i in range(m.n):
        out.append(f'{t[i]:.5f} ' + ' '.join(f'{x: .10E}' for x in D[:, i]) +
            (f' {m.k[i]:d}' if with_month else ''))
    c.note(n=m.n, with_month=with_month, header=not kw)
    p = put(c, 'gad_gsm.RL05.txt', out)
    r = g.geocenter().from_swenson(source(c, p), **kw)
    compare(c, r, m, D*.1/(5.517*6.371e8), t=t)
    if not kw:
        bad = put(c, 'bad.txt', ['a', 'b 1'])
        c.raises(IOError, 'no-data', g.geocenter().from_swenson, bad)


@check.section('SLR', quick=60, thorough=900)
def slr(c):
    m = Months(c)
    D, E = coef(c, m.n, 5.), np.abs(coef(c, m.n, .3))
    t = np.round(m.mid, 6)
    AOD = c.chance(.5)
    radius = c.pick(None, 6.378136e9)
    nh = c.int(0, 16)
    cols = ['time', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma']
    if c.chance(.5):
        cols = ['MJD', 'time', 'X', 'Y', 'Z', 'XM', 'YM', 'ZM', 'X_sigma',
            'Y_sigma', 'Z_sigma', 'XM_sigma', 'YM_sigma', 'ZM_sigma']
    style = c.pick('E', 'D')
    out = [f'header {i} 5.0' for i in range(nh)]
    for i in range(m.n):
        val = dict(time=t[i], Z=D[0, i], X=D[1, i], Y=D[2, i],
            Z_sigma=E[0, i], X_sigma=E[1, i], Y_sigma=E[2, i])
        w = [f'{t[i]:.6f}' if k == 'time' else
            f'{val.get(k, 99.5): .10E}'.replace('E', style) for k in cols]
        out.append(' '.join(w))
    base = os.path.join(c.scratch(), 'base')
    os.makedirs(os.path.join(base, 'geocenter'))
    p = put(c, 'base/geocenter/gct2est.220_5s', out)
    R = radius or R0
    S, T = D/(R*np.sqrt(3)), E/(R*np.sqrt(3))
    rel = c.pick('RL05', 'RL06')
    if AOD or c.chance(.2):
        d = os.path.join(base, 'AOD1B', rel, 'geocenter')
        os.makedirs(d)
        mean = np.zeros((3, m.n))
        for i in range(m.n):
            y, mo = int(m.year[i]), int(m.month[i])
            n = c.int(1, 9)
            A = c.rng.standard_normal((n, 3))*2
            with open(f'{d}/AOD1B_{rel}_glo_{y:4d}_{mo:02d}.txt', 'w') as f:
                f.write(f'# Geocenter time series from {rel} AOD1b glo Product\n'
                    '# Global\n# ISO-Time X Y Z\n')
                for j, (x, yy, z) in enumerate(A):
                    f.write(f'{y:4d}-{mo:02d}-{1+j:02d}T{6*(j%4):02d}:00:00 '
                        f'{x:12.8f} {yy:12.8f} {z:12.8f}\n')
            mean[:, i] = A[:, [2, 0, 1]].mean(axis=0)
        if AOD:
            S = S - mean/(R0*np.sqrt(3))
    c.note(n=m.n, AOD=AOD, radius=radius, header=nh, columns=len(cols))
    kw = dict(columns=cols)
    if nh:
        kw['header'] = nh
    if AOD or c.chance(.3):
        kw.update(AOD=AOD, release=rel)
    G = g.geocenter() if radius is None else g.geocenter(radius=radius)
    r = G.from_SLR(source(c, p), **kw)
    for a, b, k in zip((r.C10, r.C11, r.S11), S, ('C10', 'C11', 'S11')):
        c.close(a, b, k, rtol=1e-9, atol=1e-6/R0 if AOD else 0)
    for a, b, k in zip((r.eC10, r.eC11, r.eS11), T, ('eC10', 'eC11', 'eS11')):
        c.close(a, b, k, rtol=1e-9)
    c.close(r.time, t, 'time', rtol=0)
    c.close(r.month, m.k, 'month', rtol=0)
    if AOD and c.chance(.3):
        # a month without its dealiasing product is reported
        i = c.int(0, m.n-1)
        os.unlink(f'{d}/AOD1B_{rel}_glo_{m.year[i]:4d}_{m.month[i]:02d}.txt')
        c.raises(FileNotFoundError, 'missing', g.geocenter().from_SLR, p, **kw)


@check.section('gravis', quick=40, thorough=600)
def gravis(c):
    m = Months(c)
    D, E = coef(c, m.n, 1e-10), np.abs(coef(c, m.n, 1., 3))
    t = np.array([yearfrac(a) for a in m.start])
    # months are those whose beginning is nearest to the start of the data
    out = ['TITLE: Geocenter', 'COLUMNS: 11 of 2.0', 'PRODUCT: ']
    kw = {}
    if c.chance(.2):
        out, kw = [], dict(header=False)
    for i in range(m.n):
        w = ' '.join(f'{D[k, i]: .10E} {c.rng.standard_normal():9.4f} '
            f'{E[k, i]:9.6f}' for k in range(3))
        out.append(f'{(m.start[i]-MJD0).days}.0 {t[i]:.6f} {w}')
        if c.chance(.05):
            out.append('')
    E = np.vectorize(lambda x: float(f'{x:.6f}'))(E)*1e-10
    c.note(n=m.n, header=not kw)
    p = put(c, 'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat', out)
    r = g.geocenter().from_gravis(source(c, p), **kw)
    compare(c, r, m, D, E, t=t, ttol=6e-7)


@check.section('missing', quick=14, thorough=14)
def missing(c):
    G = g.geocenter()
    fn = c.cycle(G.from_tellus, G.from_UCI, G.from_swenson, G.from_gravis,
        G.from_netCDF4, G.from_SLR)
    c.note(fn=fn.__name__)
    c.raises(FileNotFoundError, 'missing', fn,
        os.path.join(c.scratch(), 'none.txt'))
