"""X01: the programs that make maps from monthly fields and back."""
import os
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref, prog
from rv.setup import (BYCODE, SUFFIX, Choice, fit, grid_of, love_of, mask_file,
    read_grid, series_file, static_file, weights, wide)
from checks.M03 import rectangle

check = Check('X01', 'each case lays out the input files of a program with '
    'generated numbers, runs its main() with generated options and compares '
    'the files it wrote with an independent evaluation: series evaluated at '
    'every point of the documented grid, in the chosen units, smoothed, after '
    'exactly the chosen corrections; logged errors are failures',
    ['the selected monthly fields of runs with replacement options are taken '
     'from grace_input_months (decided by R01 and R08), decorrelation from '
     'harmonics.destripe (M08) and ocean functions from ocean_stokes (M10)'])


def names(folder):
    return sorted(os.listdir(folder)) if os.path.exists(folder) else []


@check.section('to-harmonics', quick=30, thorough=500)
def to_harmonics(c):
    """spatial file to harmonics"""
    base = c.scratch()
    form = c.cycle('netCDF4', 'HDF5', 'ascii')
    interval = c.pick(1, 2, 2)
    dlon, dlat = c.pick((10., 10.), (15., 15.), (20., 10.), (30., 15.), (7.5, 15.))
    date = c.chance(.6)
    nt = 1 if form == 'ascii' or not date else c.pick(1, c.int(2, 4))
    if interval == 1:
        lon, lat = np.arange(round(360/dlon)+1)*dlon, 90-dlat*np.arange(round(180/dlat)+1)
    else:
        lon, lat = dlon/2+dlon*np.arange(round(360/dlon)), 90-dlat/2-dlat*np.arange(round(180/dlat))
    if form != 'ascii' and c.chance(.4):
        lon = lon-180
    s = g.spatial(fill_value=-9999.0)
    s.lon, s.lat = lon, lat
    s.data = np.round(c.rng.standard_normal((len(lat), len(lon), nt))*10, 4)
    s.mask = c.rng.random(s.data.shape) < c.pick(0, 0, .1)
    if form == 'ascii' and s.mask.any():
        # a row or column without any point has no coordinates
        s.mask[:, 0], s.mask[0, :] = False, False
    s.data[s.mask] = -9999.0
    s.fill_value = -9999.0
    t = 2003+(np.cumsum(c.rng.integers(1, 3, nt))-.5)/12+c.int(0, 15)
    t = np.round(t, 4)
    s.time, s.month = t, np.array([int(np.floor((x-2002)*12+1)) for x in t])
    if nt == 1:
        s = s.squeeze()
        s.data, s.mask = s.data[..., 0] if s.data.ndim == 3 else s.data, \
            s.mask[..., 0] if s.mask.ndim == 3 else s.mask
        s.time, s.month = np.float64(t[0]), np.int64(s.month if np.ndim(s.month) == 0 else s.month[0])
    src = os.path.join(base, 'in.'+SUFFIX[form])
    header = 0
    if form == 'ascii':
        s.to_ascii(src, date=date)
        if c.chance(.5):
            header = c.int(1, 4)
            with open(src) as f:
                body = f.read()
            with open(src, 'w') as f:
                f.write('header line\n'*header+body)
    else:
        s.to_file(src, format=form, date=date)
    L = c.int(1, 8)
    M = c.pick(None, None, c.int(0, L))
    units = c.pick(1, 2, 3)
    love, frame = c.int(0, 4), c.pick('CF', 'CM', 'CE')
    out = os.path.join(base, c.pick('out', os.path.join('new', 'out'))+'.'+SUFFIX[form])
    argv = [src, out, '--lmax', L, '--units', units, '--format', form,
        '--interval', interval, '--love', love, '--reference', frame,
        '--spacing', dlon, dlat, '--mode', '664']
    if M is not None:
        argv += ['--mmax', M]
    if date:
        argv += ['--date']
    if form == 'ascii':
        argv += ['--fill-value', '-9999.0', '--header', header]
    c.note(form=form, interval=interval, d=(dlon, dlat), nt=nt, L=L, M=M,
        units=units, love=love, frame=frame, date=date, header=header)
    prog.run(c, 'convert_harmonics', argv)
    c.eq(oct(os.stat(out).st_mode & 0o777), '0o664', 'mode')
    r = g.harmonics().from_file(out, format=form, date=date)
    M = L if M is None else M
    c.eq((int(r.lmax), int(r.mmax)), (L, M), 'degree-and-order')
    hl, kl, ll = love_of(L, love, frame)
    f = ref.factors_spatial(L, hl, kl, ll)
    z = np.where(s.mask, 0.0, s.data).reshape(len(lat), len(lon), nt)
    for i in range(nt):
        if units == 2:
            # Gt per cell
            P, _ = ref.plm(L, np.radians(90-lat))
            mm = np.arange(L+1)[:, None]*np.radians(lon)[None, :]
            A = 1e15/ref.RAD_E**2*z[:, :, i]
            C = np.einsum('lmy,yx,mx->lm', P.astype(float), A, np.cos(mm))
            S = np.einsum('lmy,yx,mx->lm', P.astype(float), A, np.sin(mm))
        else:
            C, S = rectangle(z[:, :, i].T, lon, lat, L, L)
        k = f['mmwe' if units == 3 else 'cmwe'][:, None]
        for got, want, key in ((r.clm, C, 'clm'), (r.slm, S, 'slm')):
            got = np.asarray(got)
            got = got[..., i] if got.ndim == 3 else got
            w = fit(np.asarray(want, float)*k, L, M)
            c.near(got, w, key, tol=1e-9)
    if date:
        c.close(np.atleast_1d(r.time), t, 'time', rtol=0, atol=2e-4 if form == 'ascii' else 1e-9)
        c.eq([int(x) for x in np.atleast_1d(r.month)], [int(np.floor(
            (x-2002)*12+1)) for x in t], 'month') if form != 'ascii' else None
    if form != 'ascii':
        a = r.attributes['ROOT']
        c.ok(str(np.atleast_1d(a['max_degree'])[0]) == str(L) and
            a['lineage'] == os.path.basename(src), 'attributes', got=str(a))


@check.section('to-maps', quick=36, thorough=600)
def to_maps(c):
    """harmonic files to a spatial file"""
    base = c.scratch()
    form = c.cycle('netCDF4', 'HDF5', 'ascii')
    index = c.chance(.5)
    date = c.chance(.7) or (index and form != 'ascii')
    L0 = c.int(28, 31) if wide(c) else c.int(2, 9)
    M0 = c.pick(L0, c.int(20 if wide(c) else 1, L0))
    nt = 1 if form == 'ascii' or not date else c.pick(1, c.int(2, 5))
    months = np.cumsum(c.rng.integers(1, 4, nt))+c.int(3, 90)
    times = np.round(2002+(months-.5)/12, 4)
    if index:
        C = np.zeros((L0+1, M0+1, nt))
        S = C.copy()
        lines = []
        for i in c.rng.permutation(nt):
            f = os.path.join(base, f'field{i}.{SUFFIX[form]}')
            C[..., i], S[..., i] = static_file(c, f, L0, M0, form,
                dated=(times[i], months[i]) if date else None)
            lines.append(f)
        src = os.path.join(base, 'index.txt')
        with open(src, 'w') as f:
            f.write('\n'.join(lines+c.pick([], ['# comment', '']))+'\n')
    else:
        src = os.path.join(base, 'in.'+SUFFIX[form])
        if nt > 1:
            C, S = series_file(c, src, L0, M0, form, months, times)
        else:
            C, S = static_file(c, src, L0, M0, form,
                dated=(times[0], months[0]) if date else None)
            C, S = C[..., None], S[..., None]
    L = c.int(28, L0+1) if wide(c) else c.int(1, L0+1)
    M = c.pick(None, None, c.int(20 if wide(c) else 1, L))
    m_ = L if M is None else M
    C, S = fit(C, L, m_), fit(S, L, m_)
    units = c.int(0, 5)
    radius = c.pick(0, 0, c.int(200, 1500))
    love = c.int(0, 4)
    frame = c.pick('CF', 'CM', 'CE') if units in (0, 2, 4) else c.pick('CF', 'CE')
    ga, lon, lat, d, kind = grid_of(c, start=0.0)
    out = os.path.join(base, c.pick('out', os.path.join('new', 'out'))+'.'+SUFFIX[form])
    argv = [src, out, '--lmax', L, '--units', units, '--format',
        ('index-' if index else '')+form, '--love', love, '--reference', frame,
        '--mode', '660'] + ga
    if M is not None:
        argv += ['--mmax', M]
    if radius or c.chance(.3):
        argv += ['--radius', radius]
    if date:
        argv += ['--date']
    mean = c.chance(.4)
    if mean:
        f = os.path.join(base, 'mean.'+SUFFIX[form])
        a, b = static_file(c, f, c.pick(L, L+2), c.pick(m_, L), form)
        C, S = C-fit(a, L, m_)[..., None], S-fit(b, L, m_)[..., None]
        argv += ['--mean', f]
    ocean = c.chance(.3)
    if ocean:
        mask = mask_file(c, base)
        o = g.ocean_stokes(mask, L, MMAX=m_, LOVE=love_of(L, love, frame))
        k = C[0, 0]/o.clm[0, 0]
        C = C-k*np.asarray(o.clm)[:, :, None]
        S = S-k*np.asarray(o.slm)[:, :, None]
        argv += ['--redistribute-mass', '--mask', mask]
    destripe = wide(c) or L > 5 and c.chance(.3)
    if destripe:
        h = g.harmonics(lmax=L, mmax=m_)
        h.clm, h.slm = C.copy(), S.copy()
        h.time, h.month = times.copy(), months.copy()
        h = h.destripe()
        C, S = np.asarray(h.clm), np.asarray(h.slm)
        argv += ['--destripe']
    c.note(form=form, index=index, date=date, nt=nt, L0=(L0, M0), L=L, M=M,
        units=units, radius=radius, love=love, frame=frame, grid=kind, d=d,
        mean=mean, ocean=ocean, destripe=destripe)
    prog.run(c, 'combine_harmonics', argv)
    c.eq(oct(os.stat(out).st_mode & 0o777), '0o660', 'mode')
    v = read_grid(out, form, date=date)
    hl, kl, ll = love_of(L, love, frame)
    u = BYCODE[units]
    k = (ref.factors_harmonic(L, hl, kl, ll)[u]*weights(radius, L))[:, None]
    want = np.stack([ref.synth(C[..., i]*k, S[..., i]*k, lon, lat).T
        for i in range(nt)], axis=-1)
    maps(c, v, form, want, lon, lat, times if date else None, date)
    if form != 'ascii':
        c.eq(str(v['units']), g.units.get_attributes(u)[0] or 'None', 'units')


def maps(c, v, form, want, lon, lat, times, date, key='maps'):
    """a written grid against the expected one"""
    scale = np.abs(want).max() if want.size else 1.0
    if form == 'ascii':
        yy, xx = np.meshgrid(lat, lon, indexing='ij')
        c.eq(len(v['z']), xx.size, key+'-points')
        c.close(v['lon'], xx.ravel(), key+'-lon', rtol=0, atol=6e-5)
        c.close(v['lat'], yy.ravel(), key+'-lat', rtol=0, atol=6e-5)
        c.close(v['z'], want[..., 0].ravel(), key, rtol=1e-7, atol=6e-5)
        if date:
            c.close(v['time'], times, key+'-time', rtol=0, atol=6e-5)
        return
    c.close(v['lon'], lon, key+'-lon', rtol=0, atol=1e-9)
    c.close(v['lat'], lat, key+'-lat', rtol=0, atol=1e-9)
    z = np.asarray(v['z'])
    z = z[..., None] if z.ndim == 2 else z
    c.close(z, want, key, rtol=1e-7, atol=1e-8*scale+1e-30)
    if date:
        c.close(np.atleast_1d(v['time']), times, key+'-time', rtol=0, atol=1e-8)


class Corrections:
    """mean, isostatic adjustment and removed fields of a monthly analysis"""
    def __init__(self, c, s, gia=True, remove=True):
        C, S = s.cs()
        self.argv, self.tag, self.text = [], '', []
        base, L, M, n = s.base, s.L, s.order, len(s.used)
        self.mean = None
        if n == 1 or c.chance(.4):
            form = c.pick('netCDF4', 'HDF5', 'ascii')
            f = os.path.join(base, 'meanfield.'+SUFFIX[form])
            a, b = static_file(c, f, L+c.int(0, 2), L, form)
            C, S = C-fit(a, L, M)[..., None], S-fit(b, L, M)[..., None]
            self.argv += ['--mean-file', f, '--mean-format', form]
            self.mean = 'meanfield.'+SUFFIX[form]
        else:
            C, S = C-C.mean(axis=2)[..., None], S-S.mean(axis=2)[..., None]
        self.destripe = wide(c) or L > 5 and c.chance(.3)
        if self.destripe:
            self.argv += ['--destripe']
            C, S = self.filter(s, C, S)
        # before the adjustment and removed fields
        self.base = C.copy(), S.copy()
        self.gia = None
        if gia and c.chance(.5):
            form = self.gia = c.pick('ascii', 'netCDF4', 'HDF5')
            f = os.path.join(base, 'model_rate.'+SUFFIX[form])
            a, b = ref.random_coeffs(c.rng, L+1, L+1, scale=1e-10)
            h = g.harmonics(lmax=L+1, mmax=L+1)
            h.clm, h.slm = a, b
            h.to_file(f, format=form, date=False, title='GIA_model_A')
            self.tag = '_model_rate' if form == 'ascii' else '_GIA_model_A'
            rate = s.time-2003.3
            C = C-fit(a, L, M)[..., None]*rate
            S = S-fit(b, L, M)[..., None]*rate
            self.argv += ['--gia', form, '--gia-file', f]
        self.removed = []
        if remove and c.chance(.5):
            self.remove(c, s)
            C, S = C-self.C, S-self.S
        self.clm, self.slm = C, S

    def filter(self, s, C, S):
        h = g.harmonics(lmax=s.L, mmax=s.order)
        h.clm, h.slm = C.copy(), S.copy()
        h.time, h.month = s.time, np.array(s.used)
        h = h.destripe()
        return np.asarray(h.clm), np.asarray(h.slm)

    def remove(self, c, s):
        base, L, M = s.base, s.L, s.order
        self.C = self.S = 0.0
        files, forms = [], []
        ocean = c.chance(.4)
        if ocean:
            mask = mask_file(c, base)
            o = g.ocean_stokes(mask, L, MMAX=M, LOVE=s.love_numbers())
            self.argv += ['--redistribute-removed', '--mask', mask]
        same = c.chance(.5)
        # months of the removed fields: those needed and others
        months = sorted(set(s.used) | set(range(s.used[0]-c.int(0, 2),
            s.used[-1]+1+c.int(0, 2))))
        times = np.round(2002+(np.array(months)-.5)/12, 4)
        kind0 = c.pick('netCDF4', 'HDF5', 'index-netCDF4', 'index-HDF5', 'index-ascii')
        for j in range(c.int(1, 2)):
            kind = kind0 if same else c.pick('netCDF4', 'HDF5', 'index-netCDF4',
                'index-HDF5', 'index-ascii')
            l0 = L+c.int(-1, 2)
            if kind.startswith('index'):
                form = kind.split('-')[1]
                A, B, lines = [], [], []
                for i, gm in enumerate(months):
                    f = os.path.join(base, f'rm{j}_{gm:03d}.{SUFFIX[form]}')
                    a, b = static_file(c, f, l0, l0, form, dated=(times[i], gm))
                    A.append(a), B.append(b)
                    lines.append(f)
                    self.removed.append(os.path.basename(f))
                A, B = np.stack(A, -1), np.stack(B, -1)
                path = os.path.join(base, f'index{j}.txt')
                with open(path, 'w') as f:
                    f.write('\n'.join(lines)+'\n')
            else:
                path = os.path.join(base, f'rm{j}.{SUFFIX[kind]}')
                A, B = series_file(c, path, l0, l0, kind, months, times)
                self.removed.append(os.path.basename(path))
            k = [months.index(x) for x in s.used]
            A, B = fit(A[..., k], L, M), fit(B[..., k], L, M)
            if ocean:
                q = A[0, 0]/o.clm[0, 0]
                A = A-q*np.asarray(o.clm)[..., None]
                B = B-q*np.asarray(o.slm)[..., None]
            if self.destripe:
                A, B = self.filter(s, A, B)
            self.C, self.S = self.C+A, self.S+B
            files.append(path)
            forms.append(kind)
        self.argv += ['--remove-file', *files, '--remove-format',
            *(forms[:1] if same else forms)]


def prefix_of(s, k):
    return f'{s.m.proc}_{s.m.drel}_{s.m.dset}{s.read()["title"]}{k.tag}_'


@check.section('monthly-maps', quick=60, thorough=900)
def monthly(c):
    """maps of the chosen months"""
    s = Choice(c) if c.chance(.85) else Choice(c, months=[c.pick(4, 45, 92, 156,
        168, 185, c.int(4, 200))])
    units = s.frame(c.int(1, 5))
    k = Corrections(c, s)
    form = c.pick('netCDF4', 'HDF5', 'ascii')
    radius = c.pick(0, 0, c.int(200, 1500))
    lmin = c.pick(None, c.int(0, min(3, s.L)))
    ga, lon, lat, d, kind = grid_of(c)
    out = os.path.join(s.base, 'maps', *c.pick((), ('new', 'run')))
    argv = s.argv+s.love_argv()+k.argv+ga+['--output-directory', out,
        '--format', form, '--units', units, '--mode', '640']
    if radius or c.chance(.3):
        argv += ['--radius', radius]
    if lmin is not None:
        argv += ['--lmin', lmin]
    pre = c.pick(None, 'PREFIX_')
    if pre:
        argv += ['--file-prefix', pre]
    s.note(form=form, units=units, radius=radius, lmin=lmin, grid=kind, d=d,
        gia=k.gia, removed=len(k.removed), destripe=k.destripe, mean=k.mean)
    prog.run(c, 'grace_spatial_maps', argv)
    u = BYCODE[units]
    tail = f'_L{s.L}'+(f'M{s.M}' if s.M not in (None, s.L) else '') + \
        (f'_r{radius}km' if radius else '')+('_FL' if k.destripe else '')
    pre = pre or prefix_of(s, k)
    want = {f'{pre}{u}{tail}_{gm:03d}.{SUFFIX[form]}': i for i, gm in
        enumerate(s.used)}
    c.eq(names(out), sorted(want), 'files')
    hl, kl, ll = s.love_numbers()
    f = (ref.factors_harmonic(s.L, hl, kl, ll)[u]*weights(radius, s.L))[:, None]
    lo = 1 if lmin is None else lmin
    for name, i in want.items():
        path = os.path.join(out, name)
        z = ref.synth(k.clm[..., i]*f, k.slm[..., i]*f, lon, lat, lmin=lo).T
        v = read_grid(path, form)
        maps(c, v, form, z[..., None], lon, lat, s.time[i:i+1], True)
        c.eq(os.stat(path).st_mode & 0o777, 0o640, 'mode')
        if form != 'ascii':
            c.eq(str(v['units']), g.units.get_attributes(u)[0], 'units')
            a = v['attributes']
            c.ok(all(n in str(np.atleast_1d(a['lineage'])) for n in
                k.removed+([k.mean] if k.mean else [])) , 'lineage',
                got=str(a['lineage']))
            c.eq(str(a['product_name']), s.m.dset, 'product')


def spread(C, S, k, lon, lat, lmin):
    """standard deviation of a field with independent coefficients"""
    L = C.shape[0]-1
    P, _ = ref.plm(L, np.radians(90-lat))
    P2 = (P.astype(float))**2
    out = np.zeros((len(lat), len(lon)))
    for m in range(C.shape[1]):
        l = np.arange(max(lmin, m), L+1)
        a = np.einsum('l,ly->y', (C[l, m]*k[l, 0])**2, P2[l, m])
        b = np.einsum('l,ly->y', (S[l, m]*k[l, 0])**2, P2[l, m])
        x = np.radians(lon)*m
        out += a[:, None]*np.cos(x)**2+b[:, None]*np.sin(x)**2
    return np.sqrt(out)


def noise_of(s, C, S):
    """root mean square of the unsmooth part of each coefficient"""
    h = 19 if s.m.proc == 'CNES' and s.m.drel in ('RL01', 'RL02') else 6
    D = np.zeros((2,)+C.shape[:2])
    for q, A in enumerate((C, S)):
        for l in range(s.L+1):
            for m in range(min(l, s.order)+1):
                r = g.time_series.smooth(s.time, A[l, m], HFWTH=h)
                D[q, l, m] = np.sqrt(np.mean(np.asarray(r['noise'])**2))
                n, t = len(r['data']), np.mean(r['time'])
    return D, n, t


def delta_name(s, form, destripe):
    return (f'{s.m.proc}_{s.m.drel}_{s.m.dset}_DELTA_CLM_L{s.L}' +
        (f'M{s.M}' if s.M not in (None, s.L) else '')+('_FL' if destripe else '') +
        ('_wATM' if 'ATM' in s.kw else '') +
        f'_{s.used[0]:03d}-{s.used[-1]:03d}.{SUFFIX[form]}')


@check.section('errors', quick=20, thorough=300)
def errors(c):
    """errors from the scatter of the coefficients about their smooth part,
    the same when the stored scatter is used again"""
    n = c.int(15, 24)
    lo = c.pick(4, 20, 60, 115, 190, c.int(4, 200))
    s = Choice(c, months=list(range(lo, lo+n)), least=14)
    units = s.frame(c.int(1, 5))
    k = Corrections(c, s, gia=False, remove=False)
    form = c.cycle('netCDF4', 'HDF5', 'ascii')
    radius = c.pick(0, 0, c.int(200, 1500))
    lmin = c.pick(None, c.int(0, min(3, s.L)))
    ga, lon, lat, d, kind = grid_of(c)
    out = os.path.join(s.base, 'maps', *c.pick((), ('new', 'run')))
    argv = s.argv+s.love_argv()+k.argv+ga+['--output-directory', out,
        '--format', form, '--units', units, '--mode', '640']
    if radius:
        argv += ['--radius', radius]
    if lmin is not None:
        argv += ['--lmin', lmin]
    s.note(form=form, units=units, radius=radius, lmin=lmin, grid=kind, d=d,
        destripe=k.destripe, mean=k.mean)
    D, n, t = noise_of(s, k.clm, k.slm)
    u = BYCODE[units]
    hl, kl, ll = s.love_numbers()
    f = (ref.factors_harmonic(s.L, hl, kl, ll)[u]*weights(radius, s.L))[:, None]
    want = spread(D[0], D[1], f/np.sqrt(n), lon, lat, 1 if lmin is None else lmin)
    name = (f'{s.m.proc}_{s.m.drel}_{s.m.dset}{s.read()["title"]}_{u}_L{s.L}' +
        (f'M{s.M}' if s.M not in (None, s.L) else '') +
        (f'_r{radius}km' if radius else '')+('_FL' if k.destripe else '') +
        f'_ERR_{s.used[0]:03d}-{s.used[-1]:03d}.{SUFFIX[form]}')
    before = set(os.listdir(s.m.dir))
    for again in (False, True):
        prog.run(c, 'grace_spatial_error', argv)
        c.eq(names(out), [name], 'files')
        v = read_grid(os.path.join(out, name), form, date=False)
        maps(c, v, form, want[..., None], lon, lat, None, False,
            key='stored-errors' if again else 'errors')
        c.eq(sorted(set(os.listdir(s.m.dir))-before),
            [delta_name(s, form, k.destripe)], 'delta-file')
        os.unlink(os.path.join(out, name))


@check.section('scaled', quick=20, thorough=300)
def scaled(c):
    """maps times scaling factors with their errors"""
    n = c.int(15, 20)
    lo = c.pick(4, 20, 60, 115, 190, c.int(4, 200))
    s = Choice(c, months=list(range(lo, lo+n)), least=14)
    s.frame(1)
    k = Corrections(c, s)
    form = c.pick('netCDF4', 'HDF5')
    radius = c.pick(0, 0, c.int(200, 1500))
    lmin = c.pick(None, c.int(0, min(3, s.L)))
    ga, lon, lat, d, kind = grid_of(c, intervals=(1, 2), start=c.pick(0., -180.))
    out = os.path.join(s.base, 'maps', *c.pick((), ('new', 'run')))
    K = g.scaling_factors(fill_value=-9999.0)
    K.lon, K.lat = lon, lat
    shape = (len(lat), len(lon))
    K.data = c.rng.uniform(.5, 2.0, shape)
    K.error = c.rng.uniform(.1, 1.0, shape)
    K.magnitude = c.rng.uniform(1.0, 5.0, shape)
    K.mask = c.rng.random(shape) < c.pick(0, .2)
    K.update_mask()
    path = os.path.join(s.base, 'scale.'+SUFFIX[form])
    fm = dict(lon='lon', lat='lat', data='kfactor', error='error', magnitude='power')
    getattr(K, 'to_'+form)(path, date=False, field_mapping=fm,
        attributes=dict(ROOT={}, **{x: {} for x in fm.values()}))
    argv = s.argv+s.love_argv()+k.argv+ga+['--output-directory', out,
        '--format', form, '--scale-file', path, '--mode', '640']
    if radius:
        argv += ['--radius', radius]
    if lmin is not None:
        argv += ['--lmin', lmin]
    pre = c.pick(None, 'PREFIX_')
    if pre:
        argv += ['--file-prefix', pre]
    s.note(form=form, radius=radius, lmin=lmin, grid=kind, d=d,
        destripe=k.destripe, mean=k.mean, gia=k.gia, removed=len(k.removed))
    hl, kl, ll = s.love_numbers()
    f = (ref.factors_harmonic(s.L, hl, kl, ll)['cmwe']*weights(radius, s.L))[:, None]
    z = np.stack([ref.synth(k.clm[..., i]*f, k.slm[..., i]*f, lon, lat).T
        for i in range(len(s.used))], -1)*K.data[..., None]
    pre = pre or prefix_of(s, k)
    tail = f'cmwe_L{s.L}'+(f'M{s.M}' if s.M not in (None, s.L) else '') + \
        (f'_r{radius}km' if radius else '')+('_FL' if k.destripe else '') + \
        f'_{s.used[0]:03d}-{s.used[-1]:03d}.{SUFFIX[form]}'
    C, S = k.base
    D, n, t = noise_of(s, C, S)
    err = spread(D[0], D[1], f/np.sqrt(n), lon, lat, 1 if lmin is None else lmin)*K.data
    pw = np.sqrt((np.where(K.mask[..., None], 0, z)**2).sum(axis=2))
    want = {f'{pre}{tail}': (z, True, 'scaled'),
        f'{pre}ERROR_{tail}': ((K.error*pw/K.magnitude)[..., None], False, 'scaling-error'),
        f'{pre}DELTA_{tail}': (err[..., None], False, 'delta')}
    for again in (False, True):
        prog.run(c, 'scale_grace_maps', argv)
        c.eq(names(out), sorted(want), 'files')
        for name, (w, date, key) in want.items():
            v = read_grid(os.path.join(out, name), form)
            y = np.asarray(v['z'])
            y = y[..., None] if y.ndim == 2 else y
            bad = np.broadcast_to(K.mask[..., None], w.shape)
            c.ok(np.all(y[bad] == -9999.0), key+'-masked')
            c.close(np.where(bad, 0, y), np.where(bad, 0, w), key, rtol=1e-7,
                atol=1e-8*np.abs(w).max())
            c.close(v['lon'], lon, key+'-lon')
            c.close(v['lat'], lat, key+'-lat')
            if date:
                c.close(v['time'], s.time, key+'-time', rtol=0, atol=1e-8)


@check.section('decorrelated', quick=6, thorough=60)
def decorrelated(c):
    """degrees high enough for the decorrelation to change coefficients"""
    c.wide = True
    c.cycle(monthly, to_maps, scaled, monthly, to_maps, errors)(c)
