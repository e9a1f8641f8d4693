"""X02: the programs that reduce monthly fields or maps to means and trends."""
import os
import numpy as np
import scipy.stats
import gravity_toolkit as g
from rv.core import Check
from rv import prog
from rv.setup import BYCODE, SUFFIX, Choice, grid_of, read_grid
from checks.F01 import LD, columns, inv_upper, orth

check = Check('X02', 'each case lays out monthly fields or monthly maps with '
    'generated numbers, runs the program with generated options and compares '
    'every file it wrote: the mean of exactly the chosen months with its root '
    'mean square errors, and coefficients, confidence bounds, amplitudes, '
    'phases and statistics of a regression solved in extended precision at '
    'every grid point; logged errors are failures')


def gfc(path):
    """head and coefficients of a gravity model file"""
    head, rows, on = {}, {}, False
    for line in open(path):
        w = line.split()
        if line.startswith('end_of_head'):
            on = True
        elif on and w:
            rows[int(w[1]), int(w[2])] = [float(x) for x in w[3:7]]
        elif len(w) == 2:
            head[w[0]] = w[1]
    return head, rows


@check.section('mean', quick=50, thorough=800)
def mean(c):
    """average of the chosen months"""
    s = Choice(c, n=c.int(2, 10))
    form = c.cycle('netCDF4', 'HDF5', 'ascii', 'gfc')
    sfx = dict(SUFFIX, gfc='gfc')[form]
    r = s.read()
    own = c.chance(.5)
    argv = s.argv+['--mean-format', form, '--mode', '644']
    if own:
        path = os.path.join(s.base, 'sub', 'mean.'+sfx)
        argv += ['--mean-file', path]
    else:
        path = os.path.join(s.m.dir, f'{s.m.proc}_{s.m.drel}_{s.m.dset}_MEAN_CLM'
            f'{r["title"]}_L{s.L}'+(f'M{s.M}' if s.M not in (None, s.L) else '') +
            f'_{s.lo:03d}-{s.hi:03d}.{sfx}')
    before = set(os.listdir(s.m.dir))
    s.note(form=form, own=own)
    prog.run(c, 'grace_mean_harmonics', argv)
    c.ok(os.path.exists(path), 'file', got=sorted(set(os.listdir(s.m.dir))-before))
    if own:
        c.eq(set(os.listdir(s.m.dir)), before, 'only-file')
    c.eq(os.stat(path).st_mode & 0o777, 0o644, 'mode')
    C, S = s.cs()
    C, S = C.mean(axis=2), S.mean(axis=2)
    if form == 'gfc':
        head, rows = gfc(path)
        c.eq(set(rows), {(l, m) for l in range(s.L+1)
            for m in range(min(l, s.order)+1)}, 'terms')
        e = [np.sqrt(np.mean(np.asarray(r[k])**2, axis=2)) for k in ('eclm', 'eslm')]
        for (l, m), v in rows.items():
            c.close(v[:2], [C[l, m], S[l, m]], 'mean', rtol=1e-11, atol=1e-24)
            c.close(v[2:], [e[0][l, m], e[1][l, m]], 'error', rtol=1e-5, atol=1e-24)
        c.eq((head['generating_institute'], head['product_name'],
            int(head['max_degree'])), (s.m.proc, s.m.dset, s.L), 'head')
        c.close(float(head['earth_gravity_constant']), 398600.4415e9, 'GM', rtol=1e-9)
        c.close(float(head['radius']), 6378136.3, 'radius', rtol=1e-9)
        return
    h = g.harmonics().from_file(path, format=form)
    tol = 1e-10 if form == 'ascii' else 1e-12
    c.eq((int(h.lmax), int(h.mmax)), (s.L, s.order), 'degree-and-order')
    c.close(h.clm, C, 'mean', rtol=tol, atol=1e-22)
    c.close(h.slm, S, 'mean', rtol=tol, atol=1e-22)
    c.close(np.squeeze(h.time), s.time.mean(), 'time', rtol=0,
        atol=2e-4 if form == 'ascii' else 1e-9)


ALIAS = dict(Q1=9.1, O1=13.6, P1=171.2, S1=322.1, K1=2725.4, J1=27.8,
    M2=13.5, S2=161.0, K2=1362.7)


def aliased(t, names):
    """columns of tidal aliases in either mission"""
    out = []
    for k in names:
        a = 2*np.pi*t*365.25/ALIAS[k]
        for on in (t < 2018, t >= 2018):
            out += [np.sin(a)*on, np.cos(a)*on]
    return out


def separable(t, cyc, names):
    """tidal aliases that the months can tell from the other terms"""
    u = (t-t.mean())/np.ptp(t)
    out = []
    for k in names:
        D = np.stack([u**o for o in range(4)]+columns(t, cyc, [])+
            aliased(t, out+[k]), axis=1)
        if len(t) > D.shape[1]+8 and np.linalg.cond(D) < 300:
            out.append(k)
    return out


def layout(c, n, least):
    """monthly maps in a folder, options to find them"""
    base = os.path.join(c.scratch(), 'maps')
    os.makedirs(base)
    form = c.pick('netCDF4', 'HDF5', 'ascii')
    alias = [str(k) for k in c.rng.permutation(list(ALIAS)) if
        form != 'ascii' or ALIAS[k] > 100][:c.pick(0, 1, 1, 2)]
    lo = c.int(150, 170) if alias else c.int(4, 200)
    if alias:
        n = max(n, 62-(lo-150))+24
        if {'K1', 'K2'} & set(alias):
            # aliases of several years
            lo -= 60
            n = 290-lo
    months = [m for m in range(lo, lo+n) if m in (lo, lo+n-1) or c.chance(.9)]
    missing = sorted(set(range(lo, lo+n))-set(months))
    t = np.round(2002+(np.array(months)-.5)/12+c.rng.uniform(-.01, .01, len(months)), 4)
    cyc = [p for p in (.5, 1.0) if c.chance(.7)]
    alias = separable(t, cyc or [1.0], alias)
    cyc += [ALIAS[k]/365.25 for k in alias]
    cyc = [cyc[i] for i in c.rng.permutation(len(cyc))] or [1.0]
    units = c.int(1, 5)
    L = c.int(10, 60)
    M = c.pick(None, L, c.int(1, L))
    radius = c.pick(0, 0, c.int(100, 900))
    ds = c.chance(.3)
    ga, lon, lat, d, kind = grid_of(c, intervals=(3,) if c.chance(.8) else (1, 2))
    if kind != 3:
        d = (60.0, 45.0)
        ga = ['--spacing', *d, '--interval', kind]
        lon = -180+60.0*np.arange(7) if kind == 1 else -150+60.0*np.arange(6)
        lat = 90-45.0*np.arange(5) if kind == 1 else 67.5-45.0*np.arange(4)
    pre = 'PRE_'
    u = BYCODE[units]
    data = c.rng.standard_normal((len(lat), len(lon), len(t)))*c.pick(1, 10)
    data += c.rng.uniform(-3, 3, data.shape[:2])[..., None]*(t-t.mean())
    data += 5*np.sin(2*np.pi*(t-c.rng.uniform(0, 1, data.shape[:2])[..., None]))
    data = np.round(data, 4)
    tail = f'_L{L}'+(f'M{M}' if M not in (None, L) else '') + \
        (f'_r{radius}km' if radius else '')+('_FL' if ds else '')
    for i in c.rng.permutation(len(t)):
        s = g.spatial(fill_value=-9999.0)
        s.lon, s.lat, s.data = lon.copy(), lat.copy(), data[..., i].copy()
        s.mask = np.zeros(s.data.shape, bool)
        s.time, s.month = np.float64(t[i]), np.int64(months[i])
        s.to_file(os.path.join(base, f'{pre}{u}{tail}_{months[i]:03d}.{SUFFIX[form]}'),
            format=form, date=True)
    argv = ['--output-directory', base, '--file-prefix', pre, '--lmax', L,
        '--start', lo, '--end', months[-1], '--missing', *(missing or [999]),
        '--units', units, '--format', form, '--mode', '640',
        '--cycles', *cyc]+ga
    if M is not None:
        argv += ['--mmax', M]
    if radius:
        argv += ['--radius', radius]
    if ds:
        argv += ['--destripe']
    c.note(form=form, months=len(months), lo=lo, cycles=cyc, alias=alias,
        units=units, L=L, M=M, radius=radius, ds=ds, grid=kind, d=d)
    return dict(base=base, form=form, months=months, t=t, data=data, cyc=cyc,
        alias=alias, pre=pre+u+tail, lon=lon, lat=lat, argv=argv, lo=lo,
        hi=months[-1], units=g.units.get_attributes(u)[0], grid=kind)


def terms(x):
    """columns and names of the cyclical terms, in pairs"""
    cols, names = [], []
    t = x['t']
    # every pair of the fit by the name of its files
    for p in x['cyc']:
        if p in (.5, 1.0):
            cols += columns(t, [p], [])
            names.append(('SS', 'SC', 'SEMI') if p == .5 else ('AS', 'AC', 'ANN'))
    for k in x['alias']:
        cols += aliased(t, [k])
        for mission in ('GRC', 'GFO'):
            names.append((f'{k}S{mission}', f'{k}C{mission}', f'{k}{mission}'))
    return cols, names


def fitmaps(cols, data):
    """coefficients, inverse of the normal matrix and residuals"""
    D = np.stack(cols, axis=1)
    Q, R = orth(D)
    Ri = inv_upper(R)
    y = data.reshape(-1, data.shape[-1]).T.astype(LD)
    b = Ri @ (Q.T @ y)
    res = y-D.astype(LD) @ b
    shape = data.shape[:2]
    return b.astype(float).reshape((-1,)+shape), np.diag(Ri @ Ri.T).astype(float), \
        (res**2).sum(axis=0).astype(float).reshape(shape)


def compare(c, x, name, want, key, error=None, tol=1e-6, units=None, scale=None):
    path = os.path.join(x['base'], name)
    v = read_grid(path, x['form'], date=False)
    loose = x['form'] == 'ascii'
    if loose:
        i = [int(np.argmin(abs(x['lat']-a))) for a in v['lat']]
        j = [int(np.argmin(abs(x['lon']-a))) for a in v['lon']]
        c.eq(len(set(zip(i, j))), want.size, key+'-points')
        c.close(v['lat'], x['lat'][i], key+'-lat', rtol=0, atol=1e-4)
        c.close(v['lon'], x['lon'][j], key+'-lon', rtol=0, atol=1e-4)
        z, w = np.asarray(v['z']), want[i, j]
    else:
        z, w = np.asarray(v['data']), want
        c.close(v['lat'], x['lat'], key+'-lat', rtol=0, atol=1e-9)
        c.close(v['lon'], x['lon'], key+'-lon', rtol=0, atol=1e-9)
    sc = np.abs(want).max() if scale is None else scale
    if key == 'phase':
        # the phase of a weak cycle is less certain
        a = scale[i, j] if loose else scale
        c.ok(np.all((z >= 0) & (z <= 360)), 'phase-range')
        z, w = a*np.exp(1j*np.radians(z)), a*np.exp(1j*np.radians(w))
        sc = np.abs(a).max()
    c.close(z, w, key, rtol=0, atol=(1e-2 if loose else tol)*sc+(6e-5 if loose else 0))
    if not loose and error is not None:
        c.close(v['error'], error, key+'-error', rtol=1e-5, atol=tol*np.abs(error).max())
    return name


def cycles(c, x, names, beta, error, j, amp):
    """amplitudes and phases"""
    done = []
    for i, (sn, cs, flag) in enumerate(names):
        a, b, ea, eb = beta[j+2*i], beta[j+2*i+1], error[j+2*i], error[j+2*i+1]
        A = np.hypot(a, b)
        ph = np.degrees(np.arctan2(b, a))
        head, tail = x['pre'], f'_{x["lo"]:03d}-{x["hi"]:03d}.{SUFFIX[x["form"]]}'
        done.append(compare(c, x, f'{head}_{flag}{amp}{tail}', A, 'amplitude',
            np.sqrt((ea*a/A)**2+(eb*b/A)**2)))
        done.append(compare(c, x, f'{head}_{flag}_PHASE{tail}', ph, 'phase',
            np.degrees(np.sqrt((ea*b/A**2)**2+(eb*a/A**2)**2)), scale=A))
    return done


def statistics(c, x, n, k, sse, label, AICc=True):
    done = []
    sst = ((x['data']-x['data'].mean(axis=2)[..., None])**2).sum(axis=2)
    p = k+1
    ll = -.5*n*(np.log(2*np.pi)+1+np.log(sse/n))
    want = dict(SSE=sse, R2Adj=1-sse/sst*(n-1)/(n-k), BIC=-2*ll+np.log(n)*p,
        AIC=-2*ll+2*p+(2*p*(p+1)/(n-p-1) if AICc else 0))
    for key, w in want.items():
        # a ratio of sums loses digits where the fit explains nothing
        done.append(compare(c, x, f'{x["pre"]}_{key}_{label}_{x["lo"]:03d}-'
            f'{x["hi"]:03d}.{SUFFIX[x["form"]]}', w, key, scale=max(1.0, np.abs(w).max())))
    return done


@check.section('regress', quick=30, thorough=500)
def regress(c):
    """polynomial and cyclical terms at every grid point"""
    x = layout(c, c.int(16, 36), 16)
    order = c.int(0, 2)
    before = set(os.listdir(x['base']))
    prog.run(c, 'regress_grace_maps', x['argv']+['--order', order])
    t = x['t']
    cols, names = terms(x)
    cols = [(t-t.mean())**o for o in range(order+1)]+cols
    beta, diag, sse = fitmaps(cols, x['data'])
    n, k = len(t), len(cols)
    q = scipy.stats.t.ppf(.975, n-k)
    error = q*np.sqrt(sse[None]/(n-k)*diag[:, None, None])
    labels = [f'x{o}' for o in range(order+1)]+[s for p in names for s in p[:2]]
    done = []
    for i, label in enumerate(labels):
        done.append(compare(c, x, f'{x["pre"]}_{label}_{x["lo"]:03d}-{x["hi"]:03d}'
            f'.{SUFFIX[x["form"]]}', beta[i], 'cycle' if i > order else f'x{i}',
            error[i]))
    done += cycles(c, x, names, beta, error, order+1, '_AMPL')
    done += statistics(c, x, n, k, sse, f'x{order}')
    c.eq(sorted(set(os.listdir(x['base']))-before), sorted(done), 'files')


@check.section('piecewise', quick=30, thorough=500)
def piecewise(c):
    """two trends joined at a month"""
    x = layout(c, c.int(20, 36), 20)
    i = c.int(6, len(x['t'])-7)
    brk = x['months'][i]
    before = set(os.listdir(x['base']))
    prog.run(c, 'piecewise_grace_maps', x['argv']+['--breakpoint', brk])
    t = x['t']
    cols, names = terms(x)
    # the constant belongs to the origin of time
    cols = [np.ones(len(t)), t, np.maximum(t-t[i], 0)]+cols
    beta, diag, sse = fitmaps(cols, x['data'])
    n, k = len(t), len(cols)
    beta[2] += beta[1]
    q = scipy.stats.t.ppf(.975, n-k)
    error = q*np.sqrt(sse[None]/(n-k)*diag[:, None, None])
    sfx = SUFFIX[x['form']]
    span = [(x['lo'], x['hi']), (x['lo'], brk), (brk, x['hi'])] + \
        [(x['lo'], x['hi'])]*(k-3)
    labels = ['x0', 'px1', 'px1']+[s for p in names for s in p[:2]]
    done = []
    for j, label in enumerate(labels):
        # bounds of the second trend are not compared
        done.append(compare(c, x, f'{x["pre"]}_{label}_{span[j][0]:03d}-'
            f'{span[j][1]:03d}.{sfx}', beta[j], 'cycle' if j > 2 else f'px{j}',
            error[j] if j != 2 and j else None, tol=1e-5))
    done += cycles(c, x, names, beta, error, 3, '')
    done += statistics(c, x, n, k, sse, 'px1', AICc=False)
    c.eq(sorted(set(os.listdir(x['base']))-before), sorted(done), 'files')
