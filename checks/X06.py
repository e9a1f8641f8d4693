"""X06: degree one from the other degrees and an ocean, and its errors."""
import os
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref, prog
from rv.setup import (SUFFIX, Choice, fit, love_of, static_file, weights)
from checks import R08
from checks.X01 import Corrections, delta_name, noise_of

check = Check('X06', 'each case lays out monthly fields, dealiasing products, '
    'a land mask and ocean models with generated numbers, runs the program '
    'and compares every number of the files it wrote with an independent '
    'solution of the three ocean equations of each month',
    ['the selected monthly fields of runs with replacement options are taken '
     'from grace_input_months (decided by R01 and R08), decorrelation from '
     'harmonics.destripe (M08), the fingerprint from sea_level_equation (M11) '
     'and the unsmooth part of a series from time_series.smooth (T03)',
     'the errors of the sampled solution are judged by an exact bound on each '
     'sample and by their scatter within 6 standard errors'])


def mask(c, base):
    """land over part of a global cell-centered grid"""
    import netCDF4
    ny = c.pick(12, 15, 18)
    nx = 2*ny
    d = 180.0/ny
    lat, lon = 90-d/2-d*np.arange(ny), d/2+d*np.arange(nx)
    if c.chance(.4):
        lat = lat[::-1].copy()
    a, b = ref.random_coeffs(c.rng, 5, 5, decay=.7)
    f = ref.synth(a, b, lon, lat).T
    z = np.where(f > np.quantile(f, c.rng.uniform(.55, .85)),
        c.rng.integers(1, 4, f.shape), c.rng.choice([0, 4], f.shape))
    path = os.path.join(base, 'mask.nc')
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('lat', ny)
        nc.createDimension('lon', nx)
        nc.createVariable('lat', 'f8', ('lat',))[:] = lat
        nc.createVariable('lon', 'f8', ('lon',))[:] = lon
        nc.createVariable('LSMASK', 'i1', ('lat', 'lon'))[:] = z
    return path, lon, lat, ((z >= 1) & (z <= 3)).astype(float)


def seasonal(t):
    """annual and semi-annual geocenter of Chen et al. (1999), as degree one"""
    R = g.geocenter().radius
    rows = []
    for a1, p1, a2, p2 in ((3.3, 43, .5, 75), (1.28, 44, .15, 331),
            (.52, 182, .56, 312)):
        x = a1*np.sin(2*np.pi*t+np.radians(p1))+a2*np.sin(4*np.pi*t+np.radians(p2))
        rows.append((x-x.mean())/(R*np.sqrt(3)))
    return np.array(rows)


def three(C, S):
    """degree one as C10, C11, S11"""
    return np.array([C[1, 0], C[1, 1], S[1, 1]])


class World:
    """the ocean equations on a grid"""
    def __init__(self, lon, lat, land, L, M, love, radius, spread=None):
        self.lon, self.lat, self.land, self.ocean = lon, lat, land, 1-land
        self.L, self.M, self.love = L, M, love
        th = np.radians(90-lat)
        P, _ = ref.plm(max(L, 1), th)
        P = P.astype(float)
        d = np.radians(180/len(lat))
        self.W = np.sin(th)[:, None]*d*d/(4*np.pi)*np.ones((1, len(lon)))
        x = np.radians(lon)
        self.Y = np.array([P[1, 0][:, None]*np.ones_like(x), P[1, 1][:, None]*np.cos(x),
            P[1, 1][:, None]*np.sin(x)])
        hl, kl, ll = love.hl, love.kl, love.ll
        self.f = ref.factors_harmonic(L, np.array(hl[:L+1]), np.array(kl[:L+1]),
            np.array(ll[:L+1]))['cmwe']
        self.k = (self.f*weights(radius, L))[:, None]
        self.I = np.einsum('ayx,byx,yx->ab', self.Y, self.Y, self.W*self.ocean)

    def mass(self, C, S, lmin):
        return ref.synth(C*self.k, S*self.k, self.lon, self.lat, lmin=lmin).T

    def over(self, z, where):
        return np.einsum('ayx,yx->a', self.Y, self.W*where*z)

    def eustatic(self, m):
        """degree one of the water that the land gave to the ocean"""
        h = -np.sum(self.W*self.land*m)/np.sum(self.W*self.ocean)
        return h*self.over(1.0, self.ocean)

    def fingerprint(self, m, L):
        P, _ = g.plm_holmes(L, np.cos(np.radians(90-self.lat)))
        a = g.gen_stokes((m*self.land).T, self.lon, self.lat, UNITS=1, LMIN=0,
            LMAX=L, PLM=P, LOVE=self.love)
        z = g.sea_level_equation(a.clm, a.slm, self.lon, self.lat, self.land.T,
            LMAX=L, LOVE=self.love, BODY_TIDE_LOVE=0, FLUID_LOVE=0, ITERATIONS=3,
            POLAR=True, PLM=P, FILL_VALUE=0)
        return self.over(np.asarray(z).T, 1.0)

    def solve(self, C, S, sea, extra=0.0):
        """degree one of the mass that the ocean needs: with the water from
        land (of the complete field) less that of the other degrees"""
        m = self.mass(C, S, 1)
        E = sea(m)
        G = self.over(self.mass(C, S, 2), self.ocean)
        return np.linalg.solve(self.I, E+extra-G), E, G


def parse(path):
    """text after the header: time, columns and month"""
    lines = open(path).read().split('# End of YAML header\n')
    rows = [x.split() for x in lines[1].splitlines() if x.strip()]
    return lines[0], np.array([[float(x) for x in r] for r in rows]).T


def written(x):
    """as 14.6e columns"""
    return np.array([[float(f'{v:.6e}') for v in r] for r in np.atleast_2d(x)])


def setup(c, s, argv_of):
    """arguments common to both programs, the fields and the corrections"""
    base, L, M = s.base, s.L, s.order
    argv = [x for i, x in enumerate(s.argv)
        if '--product' not in (s.argv[i], s.argv[i-1] if i else '')]
    k = Corrections(c, s, remove=False)
    if s.love:
        argv += ['--love', s.love]
    path, lon, lat, land = mask(c, base)
    X = L+c.int(0, 6)
    argv += ['--mask', path, '--expansion', X, '--mode', '640']+k.argv
    love = g.load_love_numbers(X, LOVE_NUMBERS=s.love, REFERENCE='CF', FORMAT='class')
    kl = c.pick(None, 'none', .021, -.01, 0.1)
    if kl is None:
        love.kl[1] = .021
    elif kl == 'none' and argv_of:
        argv += ['--kl']
    elif kl != 'none':
        argv += ['--kl', kl]
        love.kl[1] = kl
    else:
        love.kl[1] = .021
    radius = c.pick(0, 0, c.int(200, 1500))
    if radius or c.chance(.3):
        argv += ['--radius', radius]
    solver = c.cycle(None, 'inv', 'lstsq', 'gelsd', 'gelsy', 'gelss')
    if solver:
        argv += ['--solver', solver]
    return k, argv, World(lon, lat, land, L, M, love, radius), X, radius, solver


def restored(c, s, k):
    """adjustment and atmospheric corrections, with degree one"""
    # fields without the adjustment
    C, S = k.base
    gia = three(C-k.clm, S-k.slm)
    return gia


def tags(s, k):
    """parts of the output names"""
    slr = ''
    for key in ('21', '22', 'C30', 'C40', 'C50'):
        v = s.kw.get('SLR_'+key)
        if v and not (key == 'C30' and v == 'GSFC'):
            slr += f'_w{v}_{key}'
    return slr, k.tag


@check.section('inversion', quick=60, thorough=900)
def inversion(c):
    """degree one of each month"""
    atm = c.chance(.25)
    lo = c.pick(45, 92, 156) if atm else c.pick(4, 168, 185, c.int(4, 200))
    months = [m for m in range(lo, lo+c.int(3, 8)) if c.chance(.85)]
    months = months if len(months) > 1 else [lo, lo+1]
    s = Choice(c, months=months, proc=c.pick('CSR', 'JPL', 'GFZ'), dset='GSM',
        geocenter=False, least=2)
    # the atmospheric corrections are restored: not part of the fields
    ATM = s.kw.pop('ATM', None)
    L, M, n = s.L, s.order, len(s.used)
    k, argv, w, X, radius, solver = setup(c, s, True)
    A = np.zeros((2, L+1, M+1, n))
    if ATM:
        A = np.stack([R08.correction(s.atm, m, L, M) for m in s.used], axis=-1)
        A = A-A.mean(axis=-1)[..., None]
    gia = restored(c, s, k)
    # dealiasing products
    aod = {}
    for dset in ('GAD', 'GAC'):
        m = R08.Mission(c, s.base, proc=s.m.proc, drel=s.m.drel, dset=dset,
            months=[int(x) for x in s.m.months], L=s.m.L)
        C, S = m.fields(L, L, False, s.used)[:2]
        C, S = (x-x.mean(axis=-1)[..., None] for x in (C, S))
        if dset == 'GAD' and k.destripe:
            C, S = whole(s, C, S)
        aod[dset] = three(C, S)
    gad = aod['GAD']*ref.RHO_E*ref.RAD_E
    gad = gad-gad.mean(axis=1)[:, None]
    model = c.pick(None, 'MPIOM', 'OMCT', 'ECCO_kf080i', 'ECCO_V4r4', 'ECCO_V5alpha')
    extra = np.zeros((3, n))
    own = model is not None and model.startswith('ECCO')
    form = c.pick('netCDF4', 'HDF5', 'ascii')
    if model:
        argv += ['--ocean-model', model]
    if own:
        l0 = L+c.int(0, 2)
        every = list(range(s.used[0]-c.int(0, 2), s.used[-1]+1+c.int(0, 2)))
        lines, C, S = [], [], []
        for gm in every:
            f = os.path.join(s.base, f'obp_{gm:03d}.{SUFFIX[form]}')
            a, b = static_file(c, f, l0, l0, form, dated=(2002+(gm-.5)/12, gm))
            lines.append(f), C.append(a), S.append(b)
        index = os.path.join(s.base, 'obp.txt')
        R08.put(index, lines)
        j = [every.index(x) for x in s.used]
        C, S = (fit(np.stack(x, -1)[..., j], L, M) for x in (C, S))
        if k.destripe:
            C, S = k.filter(s, C, S)
        C, S = (x-x.mean(axis=-1)[..., None] for x in (C, S))
        obp = three(C, S)*w.f[1]
        extra = obp-gad
        argv += ['--ocean-file', index, '--format', form]
    iterative = c.chance(.4)
    slf = c.chance(.3)
    copy, plot = c.chance(.3), c.chance(.1)
    argv += ['--iterative']*iterative+['--fingerprint']*slf+['--copy']*copy + \
        ['--plot']*plot
    s.note(radius=radius, destripe=k.destripe, gia=k.gia, mean=k.mean,
        model=model, iterative=iterative, slf=slf, solver=solver, X=X, ATM=ATM,
        plot=plot, kl=float(w.love.kl[1]))
    prog.run(c, 'calc_degree_one', argv)
    # reference
    C0, S0 = k.clm-A[0], k.slm-A[1]
    back = gia+three(A[0], A[1])
    sea = (lambda m: w.fingerprint(m, X)) if slf else w.eustatic
    t = s.time
    D = seasonal(t)
    cols, E, G, eps = [], None, None, np.inf
    while len(cols) < (15 if iterative else 1) and eps > 1e-6:
        raw, E, G = np.zeros((3, n)), np.zeros((3, n)), np.zeros((3, n))
        for i in range(n):
            C, S = C0[..., i].copy(), S0[..., i].copy()
            x = D[:, i]-back[:, i]
            C[1, 0], C[1, 1], S[1, 1] = x
            raw[:, i], E[:, i], G[:, i] = w.solve(C, S, sea, extra[:, i])
        new = raw/w.f[1]+back
        new = new-new.mean(axis=1)[:, None]
        eps = np.sqrt(np.sum((D-new)**2)/np.sum(D**2))
        cols.append(new)
        D = new
    mod = model or 'MPIOM'
    slr, tag = tags(s, k)
    head = f'{s.m.proc}_{s.m.drel}_{mod}{"_SLF"*slf}{"_iter"*iterative}'
    fl = '_FL'*k.destripe
    folder = os.path.join(s.base, 'geocenter')
    want = {f'{head}{slr}{tag}{a}{fl}.txt': a for a in ('', '_wAOD')}
    have = set(os.listdir(folder))
    nc = f'{head}{slr}{tag}{fl}.nc'
    c.ok(set(want) | {nc} <= have, 'files', have=sorted(have), want=sorted(want))
    others = have-set(want)-{nc}
    if copy:
        dated = [x for x in others if x.endswith('.txt')]
        c.eq(len(dated), 4-2*(f'{head}.txt' in want), 'copies')
        for x in dated:
            q = '_wAOD' if '_wAOD' in x else ''
            c.eq(open(os.path.join(folder, x)).read(), open(os.path.join(folder,
                f'{head}{slr}{tag}{q}{fl}.txt')).read(), 'copies')
    c.eq(len([x for x in others if x.endswith('.pdf')]),
        plot*(1+iterative), 'plots')
    for name, a in want.items():
        path = os.path.join(folder, name)
        text, rows = parse(path)
        y = D+aod['GAC'] if a else D
        c.close(rows[0], np.round(t, 4), 'time', rtol=0, atol=1.01e-4)
        c.eq(rows[4].astype(int).tolist(), s.used, 'months')
        c.close(rows[1:4], y, 'degree-one', rtol=2e-6, atol=2e-7*np.max(np.abs(y)))
        c.eq(os.stat(path).st_mode & 0o777, 0o640, 'mode')
        # the toolkit reads its own product
        r = g.geocenter().from_UCI(path)
        c.close(np.array([r.C10, r.C11, r.S11]), rows[1:4], 'read-back', rtol=1e-12)
        c.eq(np.array(r.month).tolist(), s.used, 'read-back')
    import netCDF4
    with netCDF4.Dataset(os.path.join(folder, nc)) as f:
        v = lambda group: np.array([group[x][:] for x in ('C10', 'C11', 'S11')])
        c.close(np.array(f['time'][:]), t, 'nc-time', rtol=0, atol=1e-8)
        c.eq(np.array(f['month'][:]).tolist(), s.used, 'nc-months')
        z = v(f)
        c.eq(z.shape, (3, n, len(cols)), 'iterations')
        top = np.max(np.abs(np.array(cols)))
        c.close(z, np.moveaxis(np.array(cols), 0, -1), 'iterations',
            rtol=1e-6, atol=1e-7*top)
        for key, y in (('ESL', E/w.f[1]), ('OWM', G/w.f[1]), ('AOD', aod['GAC']),
                ('OBP', (obp if own else gad)/w.f[1])):
            c.close(v(f[key]), y, f'part-{key}', rtol=1e-6,
                atol=1e-7*np.max(np.abs(y)))
        c.eq(int(f.max_degree), L, 'attributes')
        c.eq(int(f.max_order), M, 'attributes')
        c.ok(all(x in str(f.lineage) for x in ([k.mean] if k.mean else []) +
            ([os.path.basename(lines[j[0]])] if own else [])), 'lineage',
            got=str(f.lineage))


def whole(s, C, S):
    h = g.harmonics(lmax=s.L, mmax=s.L)
    h.clm, h.slm = C.copy(), S.copy()
    h.time, h.month = s.time, np.array(s.used)
    h = h.destripe()
    return np.asarray(h.clm), np.asarray(h.slm)


@check.section('sampled', quick=12, thorough=180)
def sampled(c):
    """degree one of fields with random errors"""
    n = c.int(15, 20)
    lo = c.pick(4, 20, 60, 115, 190, c.int(4, 200))
    s = Choice(c, months=list(range(lo, lo+n)), least=14, dset='GSM',
        proc=c.pick('CSR', 'JPL', 'GFZ'), geocenter=False)
    ATM = s.kw.pop('ATM', None)
    L, M, n = s.L, s.order, len(s.used)
    k, argv, w, X, radius, solver = setup(c, s, False)
    A = np.zeros((2, L+1, M+1, n))
    if ATM:
        A = np.stack([R08.correction(s.atm, m, L, M) for m in s.used], axis=-1)
        A = A-A.mean(axis=-1)[..., None]
    gia = restored(c, s, k)
    form = c.cycle('netCDF4', 'HDF5', 'ascii')
    argv += ['--format', form]
    B, nsm, tsm = noise_of(s, *k.base)
    noise = [B]
    if c.chance(.4):
        f = f_error = os.path.join(s.base, 'error.'+SUFFIX[form])
        l0 = L+c.int(0, 2)
        a, b = static_file(c, f, l0, l0, form, scale=1e-10, dated=(2005.0, 40))
        noise.append(np.array([fit(a, L, M), fit(b, L, M)]))
        argv += ['--error-file', f]
    runs = c.int(12, 25)
    slf = c.chance(.2)
    plot = c.chance(.1)
    argv += ['--runs', runs]+['--fingerprint']*slf+['--plot']*plot
    s.note(radius=radius, destripe=k.destripe, gia=k.gia, mean=k.mean, form=form,
        slf=slf, solver=solver, X=X, ATM=ATM, plot=plot, runs=runs,
        errors=len(noise)-1)
    np.random.seed(c.int(0, 2**31))
    C0, S0 = k.clm-A[0], k.slm-A[1]
    back = gia+three(A[0], A[1])
    sea = (lambda m: w.fingerprint(m, X)) if slf else w.eustatic
    t = s.time
    D = seasonal(t)
    y = np.zeros((3, n))
    for i in range(n):
        C, S = C0[..., i].copy(), S0[..., i].copy()
        C[1, 0], C[1, 1], S[1, 1] = D[:, i]-back[:, i]
        y[:, i] = w.solve(C, S, sea)[0]/w.f[1]+back[:, i]
    y = y-y.mean(axis=1)[:, None]
    # response to an error of each coefficient
    J = np.zeros((3, 2, L+1, M+1))
    for q in (0, 1):
        for l in range(1, L+1):
            for m in range(q, min(l, M)+1):
                z = np.zeros((2, L+1, M+1))
                z[q, l, m] = 1.0
                J[:, q, l, m] = w.solve(z[0], z[1], sea)[0]/w.f[1]
    slr, tag = tags(s, k)
    mod = 'OMCT' if s.m.drel == 'RL05' else 'MPIOM'
    fl = '_FL'*k.destripe
    if ATM:
        s.kw['ATM'] = True
    delta = os.path.join(s.m.dir, delta_name(s, form, k.destripe))
    for again in (False, True):
        if again:
            # stored errors are used: small ones
            a, b = static_file(c, delta, L, M, form, scale=1e-12, dated=(tsm, nsm))
            noise[0] = np.array([a, b])
            if len(noise) > 1:
                l0 = L+c.int(0, 2)
                a, b = static_file(c, f_error, l0, l0, form, scale=1e-12,
                    dated=(2005.0, 40))
                noise[1] = np.array([fit(a, L, M), fit(b, L, M)])
        reach = sum(np.einsum('aqlm,qlm->a', np.abs(J), np.abs(b)) for b in noise)
        sigma = np.sqrt(sum(np.einsum('aqlm,qlm->a', J**2, b**2) for b in noise)/3)
        prog.run(c, 'monte_carlo_degree_one', argv)
        if not again:
            h = g.harmonics().from_file(delta, format=form)
            c.close(np.array([h.clm, h.slm]).reshape(B.shape), B, 'stored-errors',
                rtol=1e-9, atol=1e-11*np.max(B))
        folder = os.path.join(s.base, 'geocenter')
        name = f'{s.m.proc}_{s.m.drel}_{mod}{"_SLF"*slf}{tag}_monte_carlo{fl}'
        have = set(os.listdir(folder))
        c.ok({name+'.txt', name+'.nc'} <= have, 'files', have=sorted(have), want=name)
        import netCDF4
        with netCDF4.Dataset(os.path.join(folder, name+'.nc')) as f:
            z = np.array([f[x][:] for x in ('C10', 'C11', 'S11')])
            c.close(np.array(f['time'][:]), t, 'nc-time', rtol=0, atol=1e-8)
            c.eq(np.array(f['month'][:]).tolist(), s.used, 'nc-months')
        c.eq(z.shape, (3, n, runs), 'runs')
        c.close(z.mean(axis=1), np.zeros((3, runs)), 'anomaly', rtol=0,
            atol=1e-9*np.max(np.abs(z)))
        # no sample can be further away than all errors together
        d = z-y[:, :, None]
        top = 2*reach*(1-1/n)
        c.ok(bool(np.all(np.abs(d) <= 1.000001*top[:, None, None]+1e-9*np.max(np.abs(y)))),
            'bounded', most=np.max(np.abs(d), axis=(1, 2)), bound=top)
        N = n*runs
        got = np.sqrt(np.mean(d**2, axis=(1, 2)))
        expect = sigma*np.sqrt(1-1/n)
        c.ok(bool(np.all(np.abs(got/expect-1) < 6/np.sqrt(2*N)+.02)), 'scatter',
            got=got, expect=expect)
        c.ok(bool(np.all(np.abs(d.mean(axis=2)) < 6*sigma[:, None]/np.sqrt(runs))),
            'centered', got=np.max(np.abs(d.mean(axis=2)), axis=1), sigma=sigma)
        text, rows = parse(os.path.join(folder, name+'.txt'))
        c.close(rows[0], np.round(t, 4), 'time', rtol=0, atol=1.01e-4)
        c.eq(rows[7].astype(int).tolist(), s.used, 'months')
        mean, rms = z.mean(axis=2), z.std(axis=2)
        c.close(rows[1:4], mean, 'mean', rtol=2e-6, atol=1e-6*np.max(np.abs(mean)))
        c.close(rows[4:7], rms, 'rms', rtol=2e-6, atol=1e-6*np.max(np.abs(rms)))


if __name__ == '__main__':
    check.main()


@check.section('decorrelated', quick=4, thorough=40)
def decorrelated(c):
    """degrees high enough for the decorrelation to change coefficients"""
    c.wide = True
    c.cycle(*[inversion]*7, sampled)(c)
