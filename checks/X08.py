"""X08: programs that show or summarize time series."""
import contextlib
import datetime
import os
import re
import numpy as np
import scipy.stats
import gravity_toolkit as g
from rv.core import Check
from rv import prog
from checks.F01 import columns, solve
from checks.R04 import yearfrac
from checks.R06 import R0, put, uci_header
from checks.X02 import ALIAS, aliased, separable

check = Check('X08', 'each case writes series with generated numbers and months, '
    'runs a program that plots or fits them and compares the contents of every '
    'figure at the moment it is saved, and the numbers it prints, with an '
    'independent evaluation', [])


class Shown:
    """contents of the figures that are saved"""
    @contextlib.contextmanager
    def watch(self):
        from matplotlib.figure import Figure
        import matplotlib.offsetbox as box
        from matplotlib.collections import PolyCollection
        save, self.saved = Figure.savefig, {}

        def savefig(fig, fname, *args, **kw):
            save(fig, fname, *args, **kw)
            axes = []
            for ax in fig.axes:
                axes.append(dict(title=ax.get_title(), x=ax.get_xlabel(),
                    y=ax.get_ylabel(), limits=ax.get_xlim(),
                    lines=[(l.get_label(), np.array(np.ma.filled(l.get_xdata(orig=False), np.nan), float),
                        np.array(np.ma.filled(l.get_ydata(orig=False), np.nan), float))
                        for l in ax.get_lines()],
                    colors=[l.get_color() for l in ax.get_lines()],
                    texts=[b.txt.get_text() for b in ax.findobj(box.AnchoredText)],
                    spans=[p.get_extents().transformed(ax.transData.inverted())
                        .intervalx for p in ax.patches],
                    fills=[np.concatenate([p.vertices for p in f.get_paths()])
                        for f in ax.findobj(PolyCollection)]))
            self.saved[os.path.abspath(str(fname))] = axes
        Figure.savefig = savefig
        try:
            yield self
        finally:
            Figure.savefig = save


def months_of(c, lo, hi, least=3):
    """months with gaps and dates near their middle"""
    gap = set(range(187, 198))
    k = [m for m in range(lo, hi+1) if m not in gap and c.chance(.85)]
    while len([m for m in k if m <= 176]) < least:
        k = sorted({*k, c.int(lo, min(hi, 176))})
    k = np.array(k)
    t = np.array([yearfrac(datetime.date(2002+(m-1)//12, (m-1) % 12+1, 15))
        for m in k.tolist()])+c.rng.uniform(-.01, .01, len(k))
    return k, np.round(t, 4)


def uci_file(c, path, k, t):
    """a record of the geocenter, coordinates in mm (x, y, z)"""
    D = np.array([[float(f'{x:.10E}') for x in row] for row in
        c.rng.standard_normal((3, len(k)))*2e-10+c.rng.uniform(-1, 1, (3, 1))*1e-10])
    out = uci_header(c, [(1, 'C10'), (2, 'C11'), (3, 'S11')])
    for i in range(len(k)):
        out.append(f'{t[i]:11.4f}'+''.join(f' {D[j, i]: .10E}' for j in range(3)) +
            f' {k[i]:03d}')
    with open(path, 'w') as f:
        f.write('\n'.join(out)+'\n')
    return D


def cartesian(D):
    return R0*np.sqrt(3.0)/1.021*D[[1, 2, 0]]


def relative(D, k, lo):
    """anomalies from the months before the end of the first mission"""
    X = cartesian(D)
    on = (k >= lo) & (k <= 176)
    return X-X[:, on].mean(axis=1)[:, None]


def spread(k, v, months):
    """values of the months, nothing where there are none"""
    at = {m: i for i, m in enumerate(k.tolist())}
    return np.array([v[at[m]] if m in at else np.nan for m in months])


def options(c):
    """a folder and the chosen months"""
    base = c.scratch()
    lo = c.int(4, 160)
    hi = c.pick(c.int(165, 176), c.int(199, 240), c.int(186, 240))
    # the second mission is not in the older releases
    missing = sorted({c.int(lo, hi) for _ in range(c.int(1, 8))})
    months = sorted(set(range(lo, hi+1))-set(missing))
    argv = ['--directory', base, '--start', lo, '--end', hi, '--missing', *missing]
    return base, lo, hi, months, argv


def panels(c, shown, path, labels, want, months, t, lo, hi):
    """three coordinates with one line of each label"""
    c.eq(list(shown.saved), [path], 'figures')
    c.ok(open(path, 'rb').read(5) == b'%PDF-', 'pdf')
    axes = shown.saved[path]
    c.eq([a['title'] for a in axes], ['x', 'y', 'z'], 'titles')
    for j, a in enumerate(axes):
        lines = {l: (x, y) for l, x, y in a['lines']}
        for label in labels:
            c.ok(label in lines, 'label', got=sorted(lines))
            x, y = lines[label]
            c.close(x, t[label], 'dates', rtol=0, atol=1e-6)
            c.close(y, want[label][j], 'values', rtol=1e-9, atol=1e-9)
        c.eq(len([l for l in lines if not l.startswith('_')]), len(labels), 'lines')
        c.close(a['limits'], [2002+(lo+1)//12, 2002+(hi+1)/12], 'limits',
            rtol=0, atol=1e-9)
        yield a


def mission_gap(c, a, k, t):
    """the time between the missions is marked if both are there"""
    if {186, 198} <= set(k.tolist()):
        c.close(np.sort(a['spans'][0]), [t[k == 186][0], t[k == 198][0]], 'gap',
            rtol=0, atol=1e-6)
    else:
        c.eq(len(a['spans']), 0, 'gap')


def shutoff(c, a):
    acc = [x for l, x, y in a['lines'] if l.startswith('_') and len(x) == 2]
    c.ok(any(np.allclose(x, 2016+(246+(12+12/60)/24)/366, atol=1e-5, rtol=0)
        for x in acc), 'shutoff', got=acc)


FLAG = {'GFZwPT': ('GFZ', 'SLF_iter_wSLR21'), 'GFZ+CS21': ('GFZ', 'SLF_iter_wSLR21'),
    'GFZ+CS21+CS22': ('GFZ', 'SLF_iter_wSLR21_wSLR22')}


def release(c):
    r = c.pick('RL06', 'RL06', 'RL05', 'RL04')
    return r, 'MPIOM' if r == 'RL06' else 'OMCT'


@check.section('centers', quick=8, thorough=120)
def centers(c):
    """one line for every processing center"""
    base, lo, hi, months, argv = options(c)
    drel, model = release(c)
    proc = list(c.rng.permutation(['CSR', 'GFZ', 'JPL', *FLAG])[:c.int(1, 4)])
    T, W, keep, last = {}, {}, {}, None
    for p in proc:
        k, t = months_of(c, c.int(4, lo), c.int(180, 240))
        while not np.any((k >= lo) & (k <= 176)):
            k, t = months_of(c, c.int(4, lo), c.int(180, 240))
        pr, flag = FLAG.get(p, (p, 'SLF_iter'))
        path = os.path.join(base, f'{pr}_{drel}_{model}_{flag}.txt')
        if os.path.exists(path):
            k, t, D = keep[path]
        else:
            D = uci_file(c, path, k, t)
        keep[path] = k, t, D
        X = relative(D, k, lo)
        T[p] = spread(k, t, months)
        W[p] = [spread(k, X[j], months) for j in range(3)]
        last = k, t
    c.note(proc=proc, drel=drel, lo=lo, hi=hi)
    with Shown().watch() as shown:
        prog.run(c, 'geocenter_processing_centers', argv+['--center', *proc,
            '--release', drel])
    for a in panels(c, shown, os.path.join(base, f'SV19_{drel}_centers.pdf'), proc,
            W, months, T, lo, hi):
        mission_gap(c, a, *last)
        shutoff(c, a)


@check.section('models', quick=6, thorough=80)
def models(c):
    """one figure for every center, one line for every ocean model"""
    base, lo, hi, months, argv = options(c)
    drel, model = release(c)
    proc = list(c.rng.permutation(['CSR', 'GFZ', 'JPL'])[:c.int(1, 3)])
    mdl = [model]+list(c.rng.permutation(['ECCO_kf080i', 'ECCO_V4r4', 'OMG', 'AOD'])
        [:c.int(0, 3)])
    mdl = [mdl[i] for i in c.rng.permutation(len(mdl))]
    c.note(proc=proc, drel=drel, models=mdl, lo=lo, hi=hi)
    every = {}
    for p in proc:
        T, W = {}, {}
        for m in mdl:
            k, t = months_of(c, c.int(4, lo), c.int(180, 240))
            while not np.any((k >= lo) & (k <= 176)):
                k, t = months_of(c, c.int(4, lo), c.int(180, 240))
            D = uci_file(c, os.path.join(base, f'{p}_{drel}_{m}_SLF_iter.txt'), k, t)
            X = relative(D, k, lo)
            label = m.replace('_', '-')
            T[label] = spread(k, t, months)
            W[label] = [spread(k, X[j], months) for j in range(3)]
            if m == model:
                mark = k, t
        every[os.path.join(base, f'SV19_{p}_{drel}_ocean_models.pdf')] = T, W, mark
    with Shown().watch() as shown:
        prog.run(c, 'geocenter_ocean_models', argv+['--center', *proc,
            '--release', drel, '--ocean', *mdl])
    c.eq(list(shown.saved), list(every), 'figures')
    saved = shown.saved
    for path, (T, W, mark) in every.items():
        shown.saved = {path: saved[path]}
        for a in panels(c, shown, path, list(T), W, months, T, lo, hi):
            mission_gap(c, a, *mark)


@check.section('tellus', quick=4, thorough=60)
def tellus(c):
    """both solutions of every center"""
    base, lo, hi, months, argv = options(c)
    drel, model = release(c)
    c.note(drel=drel, lo=lo, hi=hi)
    every = {}
    for p in ('CSR', 'GFZ', 'JPL'):
        T, W = {}, {}
        k, t = months_of(c, c.int(4, lo), c.int(180, 240))
        while not np.any((k >= lo) & (k <= 176)):
            k, t = months_of(c, c.int(4, lo), c.int(180, 240))
        D = uci_file(c, os.path.join(base, f'{p}_{drel}_{model}_SLF_iter.txt'), k, t)
        X = relative(D, k, lo)
        T['Iterated SLF'] = spread(k, t, months)
        W['Iterated SLF'] = [spread(k, X[j], months) for j in range(3)]
        # the other record, with its own months
        k, _ = months_of(c, c.int(4, lo), c.int(180, 240))
        while not np.any((k >= lo) & (k <= 176)):
            k, _ = months_of(c, c.int(4, lo), c.int(180, 240))
        D = np.array([[float(f'{x:.10E}') for x in row] for row in
            c.rng.standard_normal((3, len(k)))*2e-10])
        out, t = ['TN-13', 'end of header '], []
        for i, m in enumerate(k.tolist()):
            y, mo = 2002+(m-1)//12, (m-1) % 12+1
            a = datetime.date(y, mo, 1)+datetime.timedelta(days=c.int(0, 4))
            b = datetime.date(y, mo, 27)+datetime.timedelta(days=c.int(-4, 1))
            t.append((yearfrac(a)+yearfrac(b))/2)
            for o, v, w in ((0, D[0, i], 0.), (1, D[1, i], D[2, i])):
                out.append(f'GRCOF2    1    {o} {v: .10E} {w: .10E} 1.0E-11 1.0E-11 '
                    f'{a:%Y%m%d}.0000 {b:%Y%m%d}.0000')
        with open(os.path.join(base, f'TN-13_GEOC_{p}_{drel}.txt'), 'w') as f:
            f.write('\n'.join(out)+'\n')
        t = np.array(t)
        X = relative(D, k, lo)
        T['JPL Tellus'] = spread(k, t, months)
        W['JPL Tellus'] = [spread(k, X[j], months) for j in range(3)]
        every[os.path.join(base, f'TN13_SV19_{p}_{drel}.pdf')] = T, W, (k, t)
    with Shown().watch() as shown:
        prog.run(c, 'geocenter_compare_tellus', argv+['--release', drel])
    c.eq(list(shown.saved), list(every), 'figures')
    saved = shown.saved
    for path, (T, W, mark) in every.items():
        shown.saved = {path: saved[path]}
        for a in panels(c, shown, path, list(T), W, months, T, lo, hi):
            mission_gap(c, a, *mark)
            shutoff(c, a)


@check.section('monte-carlo', quick=6, thorough=80)
def monte_carlo(c):
    """every run, their mean and their spread"""
    import netCDF4
    base, lo, hi, months, argv = options(c)
    drel, model = release(c)
    p = c.pick('CSR', 'GFZ', 'JPL')
    k, t = months_of(c, lo, hi)
    n = c.int(2, 12)
    D = c.rng.standard_normal((3, len(k), 1))*2e-10+c.rng.standard_normal((3, len(k), n))*3e-11
    path = os.path.join(base, f'{p}_{drel}_{model}_SLF_AW13_ice6g_GA_monte_carlo_FL.nc')
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('run', n)
        nc.createDimension('time', len(k))
        for name, v in zip(('C10', 'C11', 'S11'), D):
            nc.createVariable(name, 'f8', ('time', 'run'))[:] = v
        nc.createVariable('time', 'f8', ('time',))[:] = t
        nc.createVariable('month', 'i4', ('time',))[:] = k
    c.note(proc=p, drel=drel, n=n, lo=lo, hi=hi)
    with Shown().watch() as shown:
        prog.run(c, 'geocenter_monte_carlo', argv+['--center', p, '--release', drel])
    X = R0*np.sqrt(3.0)/1.021*D[[1, 2, 0]]
    X = np.stack([np.stack([spread(k, X[j, :, i], months) for i in range(n)], -1)
        for j in range(3)])
    T = spread(k, t, months)
    path = os.path.join(base, f'SV19_{p}_{drel}_monte_carlo.pdf')
    for j, a in enumerate(panels(c, shown, path, [], {}, months, {}, lo, hi)):
        mission_gap(c, a, k, t)
        shutoff(c, a)
        lines = [(x, y) for _, x, y in a['lines'] if len(x) == len(months) and
            not (len(x) == 2 and np.allclose(x, x[0]))]
        mean = X[j].mean(axis=1)
        want = list(X[j].T)+[mean]
        c.eq(len(lines), len(want), 'lines')
        for (x, y), w in zip(lines, want):
            c.close(x, T, 'dates', rtol=0, atol=1e-9)
            c.close(y, w, 'values', rtol=1e-9, atol=1e-9)
        d = X[j]-mean[:, None]
        rms = np.sqrt(np.nanmean(d**2, axis=0)).mean()
        text = ' '.join(a['texts'])
        got = re.findall(r'= *([\d.]+) mm', text)
        c.eq(len(got), 2, 'spread', text=text)
        c.close(float(got[0]), rms, 'deviation', rtol=0, atol=5.1e-3)
        c.close(float(got[1]), np.nanmax(np.abs(d)), 'maximum', rtol=0, atol=5.1e-3)


def mascon_file(c, name, both=True):
    """monthly masses: month, date, mass, error, area"""
    lo = c.int(120, 170)
    hi = c.int(216, 240)
    k = np.array([m for m in range(lo, hi+1) if m not in range(187, 198) and
        c.chance(.9)])
    t = np.round(2002+(k-.5)/12+c.rng.uniform(-.01, .01, len(k)), 4)
    u = t-t.mean()
    y = c.rng.uniform(-900, 900)+c.rng.uniform(-200, 200)*u+c.rng.uniform(-9, 9)*u**2
    y += c.rng.uniform(0, 90)*np.sin(2*np.pi*t+c.rng.uniform(0, 6))
    y = np.round(y+c.rng.standard_normal(len(k))*c.pick(1, 20), 4)
    e = np.round(c.rng.uniform(1, 20, len(k)), 4)
    head = [f'header {i}' for i in range(c.pick(0, 0, 3))]
    rows = [f'{a:03d} {b:12.4f} {m:16.10f} {s:16.10f} {2.5:16.5f}' for a, b, m, s in
        zip(k.tolist(), t, y, e)]
    return put(c, name, head+rows), len(head), k, t, y, e


def fitted(t, y, base, cycles, names):
    """coefficients with their standard errors and the sum of squares"""
    D = np.stack(base+columns(t, cycles, aliased(t, names)), axis=1)
    beta, cov = solve(D, y)
    sse = float((((y-D.astype(np.longdouble) @ beta))**2).sum())
    n, k = D.shape
    se = np.sqrt(sse/(n-k)*np.diag(cov).astype(float))
    return beta.astype(float), se, sse, n, k


def criteria(sse, n, k, c_=True):
    ll = -.5*n*(np.log(2*np.pi)+1+np.log(sse/n))
    p = k+1
    return ll, -2*ll+2*p+(2*p*(p+1)/(n-p-1) if c_ else 0), -2*ll+np.log(n)*p


@check.section('mascons', quick=12, thorough=200)
def mascons(c):
    """lines and bounds of mascons, their trends and accelerations"""
    n = c.int(1, 3)
    files = [mascon_file(c, f'mascon_{i}.txt') for i in range(n)]
    head = files[0][1]
    # one number of header lines for all files
    for path, h, *_ in files:
        lines = open(path).read().splitlines()[h:]
        with open(path, 'w') as f:
            f.write('\n'.join(['header']*head+lines)+'\n')
    alone, error, every = c.chance(.4), c.chance(.5), c.chance(.3)
    form = c.pick('pdf', 'png', 'svg', 'jpg')
    out = os.path.join(c.scratch(), 'figure.'+form)
    argv = [f[0] for f in files]+['--output-file', out, '--figure-format', form,
        '--figure-dpi', '50', '--mode', '640']
    argv += ['--individual']*alone+['--error']*error+['--all']*every
    if head or c.chance(.3):
        argv += ['--header', head]
    legend = [f'm{i}' for i in range(n)] if c.chance(.5) else None
    if legend:
        argv += ['--legend', *legend]
    title = c.pick(None, 'Total_Mass')
    if title:
        argv += ['--title', title]
    units = c.pick(None, 'cm')
    if units:
        argv += ['--units', units]
    c.note(n=n, alone=alone, error=error, every=every, legend=bool(legend))
    with Shown().watch() as shown:
        r = prog.run(c, 'quick_mascon_plot', argv)
    paths = [out] if not alone or n == 1 else [out[:-4]+f'_{i+1}.{form}' for i in range(n)]
    c.eq(sorted(shown.saved), sorted(paths), 'figures')
    for p in paths:
        c.eq(os.stat(p).st_mode & 0o777, 0o640, 'mode')
        with open(p, 'rb') as f:
            c.ok(f.read(8).startswith({'png': b'\x89PNG', 'jpg': b'\xff\xd8\xff',
                'pdf': b'%PDF', 'svg': b'<?xml'}[form]), 'format', form)
    got = re.findall(r'(x1|x2|AIC): (\S+)(?: \+/- (\S+))?', r.out)
    c.eq([a for a, _, _ in got], ['x1', 'x2', 'AIC']*n, 'printed')
    for i, (path, h, k, t, y, e) in enumerate(files):
        a, = shown.saved[paths[i] if alone and n > 1 else out]
        lines = [l for l in a['lines'] if len(l[1]) > 2]
        c.eq(len(lines), 1 if alone else n, 'lines')
        label, X, Y = lines[0 if alone else i]
        if every:
            T, V, E = t, y-y[0], e
        else:
            gap = set(range(187, 198)) & set(range(k[0], k[-1]+1))
            months = sorted({*k.tolist(), *gap})
            T, V, E = spread(k, t, months), spread(k, y, months)-y[0], spread(k, e, months)
        c.close(X, T, 'dates', rtol=0, atol=1e-9)
        c.close(Y, V, 'values', rtol=1e-9, atol=1e-6)
        if legend:
            c.eq(label, legend[i], 'label')
        if error:
            P = a['fills'][0 if alone else i]
            have = {(round(float(x), 6), round(float(v), 4)) for x, v in P}
            on = np.isfinite(T)
            for s in (-1, 1):
                for x, v in zip(T[on], (V+s*E)[on]):
                    c.ok(any(abs(x-p) < 2e-6 and abs(v-q) < 2e-4 for p, q in have),
                        'bounds', point=(x, v))
        else:
            c.eq(len(a['fills']), 0, 'bounds')
        if i == 0 or alone:
            c.eq(a['title'], 'Total Mass' if title else '', 'title')
            c.eq((a['x'], a['y']), ('Time [Yr]', units or 'Mass [Gt]'), 'axes')
            if every:
                c.eq(len(a['spans']), 0, 'gap')
            else:
                mission_gap(c, a, k, t)
        u = t-t.mean()
        q = [fitted(t, y, [u**o for o in range(m+1)], [.5, 1.], ['S2']) for m in (1, 2)]
        for m, (key, v, b) in enumerate(got[3*i:3*i+2]):
            beta, se, sse, N, K = q[m]
            f = m+1
            c.close(float(v), f*beta[m+1], key, rtol=1e-7, atol=6e-5)
            c.close(float(b), f*se[m+1]*scipy.stats.t.ppf(.975, N-K), key+'-error',
                rtol=1e-6, atol=6e-5)
        aic = [criteria(x[2], x[3], x[4])[1] for x in q]
        c.close(float(got[3*i+2][1]), aic[1]-aic[0], 'AIC', rtol=1e-6, atol=6e-5)


@check.section('regressions', quick=40, thorough=700)
def regressions(c):
    """summaries of regressions of mascons"""
    path, head, k, t, y, e = mascon_file(c, c.pick('mascon.txt', 'a.b.txt'))
    names = [str(x) for x in c.rng.permutation(list(ALIAS))[:c.pick(0, 1, 1, 2)]]
    cyc = [p for p in (.5, 1.) if c.chance(.8)]
    names = separable(t, cyc or [1.0], names)
    given = cyc+[ALIAS[x]/365.25 for x in names] or [1.0]
    cyc = cyc if cyc or names else [1.0]
    given = [given[i] for i in c.rng.permutation(len(given))]
    cyc = [p for p in given if p in (.5, 1.)]
    names = [x for p in given for x in names if np.isclose(p, ALIAS[x]/365.25)]
    brk = None
    units = c.pick(None, 'mm')
    if c.chance(.4):
        i = c.int(8, len(k)-9)
        brk = int(k[i])
        fit = ['--breakpoint', brk]
        base = [np.ones(len(t)), t, np.maximum(t-t[i], 0)]
        label = ['x0', 'px1', 'px1']
        unit = ['', ' yr^-1', ' yr^-1']
        name = f'_px1_{brk}_SUMMARY.txt'
    else:
        order = c.int(0, 3)
        fit = ['--order', order]
        base = [(t-t.mean())**o for o in range(order+1)]
        label = [f'x{o}' for o in range(order+1)]
        unit = [f' yr^{-o}' if o else '' for o in range(order+1)]
        name = f'_x{order}_SUMMARY.txt'
    stream = c.chance(.3)
    argv = [path, *fit, '--cycles', *given]+['--stream']*stream
    argv += ['--header', head] if head or c.chance(.3) else []
    argv += ['--units', units] if units else []
    c.note(given=given, fit=fit, n=len(k), stream=stream)
    r = prog.run(c, 'quick_mascon_regress', argv)
    d, f = os.path.split(path)
    new = os.path.join(d, f[:-4]+name)
    c.ok(os.path.exists(new) != stream, 'file')
    text = r.out if stream else open(new).read()
    beta, se, sse, N, K = fitted(t, y, base, cyc, names)
    q = scipy.stats.t.ppf(.975, N-K)
    err = se*q
    if brk is not None:
        beta[2] += beta[1]
        se[2], err[2] = np.hypot(se[1], se[2]), np.hypot(err[1], err[2])
    flags = []
    for p in cyc:
        label += ['SS', 'SC'] if p == .5 else ['AS', 'AC']
        flags.append('SEMI' if p == .5 else 'ANN')
    for x in names:
        for m in ('GRC', 'GFO'):
            label += [f'{x}S{m}', f'{x}C{m}']
            flags.append(f'{x}{m}')
    unit += ['']*(len(label)-len(unit))
    units = units or 'Gt'
    rows = [[w.strip() for w in line.split('\t')] for line in text.splitlines()
        if line.count('\t') == 4]
    c.eq([w for w in rows if w[1] == 'Estimate'], [[w, 'Estimate', 'Std. Error',
        '95% Conf.', 'Units'] for w in ('Coef.', 'Ampl.', 'Phase')], 'headings')
    rows = [w for w in rows if w[1] != 'Estimate']
    c.eq(len(rows), len(label)+2*len(flags), 'rows')
    c.ok(f'Input File: {f}' in text, 'source')
    c.ok('Regression Formula: '+'+'.join(label) in text, 'formula')
    for i, w in enumerate(rows[:len(label)]):
        c.eq((w[0], w[4]), (label[i], (units+unit[i]).strip()), 'names')
        c.close([float(x) for x in w[1:4]], [beta[i], se[i], err[i]], 'coefficient' if
            i < len(base) else 'cycle', rtol=1e-6, atol=6e-5)
    j = len(base)
    for i, flag in enumerate(flags):
        a, b = beta[j+2*i:j+2*i+2]
        A, P = np.hypot(a, b), np.degrees(np.arctan2(b, a)) % 360
        w = rows[len(label)+i]
        c.eq((w[0], w[4]), (flag, units), 'names')
        ea = [np.hypot(x[j+2*i]*a/A, x[j+2*i+1]*b/A) for x in (se, err)]
        c.close([float(x) for x in w[1:4]], [A, *ea], 'amplitude', rtol=1e-6, atol=6e-5)
        w = rows[len(label)+len(flags)+i]
        c.eq((w[0], w[4]), (flag, 'Degree'), 'names')
        ep = [np.degrees(np.hypot(x[j+2*i]*b/A**2, x[j+2*i+1]*a/A**2)) for x in (se, err)]
        c.ok(-6e-5 <= float(w[1]) <= 360+6e-5, 'phase-range')
        turn = abs((float(w[1])-P+180) % 360-180)
        c.ok(turn < 6e-5+1e-6*max(1, 1/A), 'phase', got=w[1], want=P)
        c.close([float(x) for x in w[2:4]], ep, 'phase-error', rtol=1e-5, atol=6e-5)
    stat = {a: float(b) for a, b in re.findall(r'^(\w+): (\S+)$', text, re.M)
        if re.match(r'^-?[\d.]+$', b)}
    sst = ((y-y.mean())**2).sum()
    ll, aic, bic = criteria(sse, N, K, brk is None)
    for key, w in dict(DOF=N-K, LOGLIK=ll, AIC=aic, BIC=bic, MSE=sse/(N-K),
            R2=1-sse/sst, R2Adj=1-sse/sst*(N-1)/(N-K),
            NRMSE=np.sqrt(sse/(N-K))/np.ptp(y)).items():
        c.ok(key in stat, key)
        c.close(stat[key], w, key, rtol=1e-6, atol=1e-6)


if __name__ == '__main__':
    check.main()
