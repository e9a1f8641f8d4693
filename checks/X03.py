"""X03: mascon estimates, their reconstruction and sensitivity kernels."""
import os
import re
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref, prog
from rv.setup import (SUFFIX, Choice, fit, grid_of, love_of, mask_file,
    read_grid, static_file, weights)
from checks.F01 import inv_upper, orth
from checks.X01 import Corrections, noise_of

check = Check('X03', 'each case lays out monthly fields, mascons and '
    'corrections with generated numbers, runs calc_mascon, then '
    'mascon_reconstruct on its series, then calc_mascon again with the '
    'reconstructed fields removed and the stored errors, or '
    'calc_sensitivity_kernel, and compares every file with a least-squares '
    'solution in extended precision',
    ['months with replacement options are taken from grace_input_months (R01, '
     'R08), decorrelation from harmonics.destripe (M08), ocean functions from '
     'ocean_stokes (M10), smoothing of series from time_series.smooth (F02)'])

RHO, RAD = ref.RHO_E, ref.RAD_E


def order_of(L, M, lo):
    """cosine and sine terms in the fit"""
    return [(q, l, m) for q in (0, 1) for l in range(lo, L+1)
        for m in range(q, min(M, l)+1)]


class Mascons:
    """index of files, one unit load each"""
    def __init__(self, c, base, L, M, n, form, extra=2):
        self.names, self.files, self.fields = [], [], []
        for i in range(n):
            l0 = L+c.int(0, extra)
            m0 = c.pick(l0, max(M, min(l0, L)))
            stem = c.pick('Mascon_{}', 'basin{}', 'GRE_{}x')
            stem = stem.format('abcdefghijklmnopq'[i])
            tag = c.pick('', f'_L{l0}', f'_L{l0}M{m0}')
            path = os.path.join(base, f'{stem}{tag}.{SUFFIX[form]}')
            C, S = ref.random_coeffs(c.rng, l0, m0, scale=1e-11)
            C[0, 0] = abs(C[0, 0])+5e-12
            C, S = [np.array([[float(f'{x:.12e}') for x in r] for r in a]) for a in (C, S)]
            h = g.harmonics(lmax=l0, mmax=m0)
            h.clm, h.slm = C.copy(), S.copy()
            h.to_file(path, format=form, date=False)
            self.files.append(path)
            self.names.append(stem.upper())
            self.fields.append((C, S))
        self.path = os.path.join(base, 'mascons.txt')
        with open(self.path, 'w') as f:
            f.write('\n'.join(c.pick([], ['# index'])+self.files)+'\n')
        self.area = np.array([4*np.pi*RAD**3*RHO*C[0, 0]/3 for C, S in self.fields])

    def loads(self, L, M, ocean=None):
        """fields cut to the degree and order, mass conserving if asked"""
        out = []
        for C, S in self.fields:
            c00 = C[0, 0]
            C, S = fit(C, L, M), fit(S, L, M)
            if ocean is not None:
                r = c00/ocean.clm[0, 0]
                C = C-r*np.asarray(ocean.clm)
                S = S-r*np.asarray(ocean.slm)
            out.append((C, S))
        return out


def solution(loads, area, terms, wt, kl, method):
    """masses (Gt) from coefficients: matrix of mascons by terms, and the
    factors of every term"""
    w = np.array([wt[l] for q, l, m in terms])
    f = np.array([(2*l+1)/(1+kl[l]) for q, l, m in terms])
    fac = w*f if method == 1 else w
    D = np.array([[x[q][l, m] for x in loads] for q, l, m in terms])*fac[:, None]
    Q, R = orth(D)
    A = (inv_upper(R) @ Q.T).astype(float)*fac[None, :]*area[:, None]
    return A, f


def take(C, S, terms):
    return np.array([(C, S)[q][l, m] for q, l, m in terms])


def series_of(path):
    return np.array([[float(x) for x in r.split()] for r in open(path)])


@check.section('mascons', quick=30, thorough=450)
def mascons(c):
    """masses of the mascons, reconstruction and leakage"""
    n = c.int(15, 20)
    lo = c.pick(4, 20, 60, 115, 190, c.int(4, 200))
    s = Choice(c, months=list(range(lo, lo+n)), least=14)
    s.frame(1)
    k = Corrections(c, s)
    form = c.cycle('netCDF4', 'HDF5', 'ascii')
    radius = c.pick(0, 0, c.int(100, 900))
    method = c.pick(1, 1, 2)
    lmin = c.pick(None, c.int(0, 2), s.L if s.M is None else 1)
    terms = order_of(s.L, s.order, 1 if lmin is None else lmin)
    solver = c.pick('lstsq', 'gelsd', 'gelsy', 'gelss')
    nm = c.int(1, min(5, len(terms)-1 if len(terms) > 1 else 1))
    conserve = c.chance(.4) and (lmin != 0 or len(terms) > 1)
    # mass conserving loads have no degree zero
    if len(terms) <= 7 and c.chance(.6) and not (conserve and lmin == 0):
        solver, nm = 'inv', len(terms)
    mform = c.pick('netCDF4', 'HDF5', 'ascii')
    os.makedirs(os.path.join(s.base, 'mascons'))
    x = Mascons(c, os.path.join(s.base, 'mascons'), s.L, s.order, nm, mform)
    out = os.path.join(s.base, 'out', *c.pick((), ('new', 'run')))
    own = ['--lmax', s.L]+(['--mmax', s.M] if s.M is not None else [])
    extra = ['--mascon-file', x.path]
    if radius:
        extra += ['--radius', radius]
    ocean = None
    if conserve:
        mask = os.path.join(s.base, 'mask.nc')
        if '--mask' not in k.argv:
            mask_file(c, s.base)
            extra += ['--mask', mask]
        ocean = g.ocean_stokes(mask, s.L, MMAX=s.order, LOVE=s.love_numbers())
        extra += ['--redistribute-mascons']
    love = s.love_argv()
    argv = s.argv+love+k.argv+extra+['--output-directory', out, '--format',
        form, '--mascon-format', mform, '--fit-method', method, '--solver',
        solver, '--mode', '640']
    if lmin is not None:
        argv += ['--lmin', lmin]
    s.note(form=form, mform=mform, radius=radius, lmin=lmin, method=method,
        solver=solver, n=nm, ocean=ocean is not None, gia=k.gia,
        removed=len(k.removed), destripe=k.destripe, mean=k.mean)
    hl, kl, ll = s.love_numbers()
    wt = weights(radius, s.L)
    loads = x.loads(s.L, s.order, ocean)
    A, f = solution(loads, x.area, terms, wt, kl, method)
    D, nd, t = noise_of(s, *k.base)
    sigma = np.sqrt(((A*take(D[0], D[1], terms)[None, :])**2).sum(axis=1))/1e15
    want = A @ take(k.clm, k.slm, terms)/1e15
    size = np.abs(A) @ np.abs(take(k.clm, k.slm, terms))/1e15

    redistributed = ocean is not None or '--redistribute-removed' in k.argv
    stem = ('' if s.m.dset == 'GSM' else f'_{s.m.dset}')+k.tag.upper() + \
        ('_wATM' if 'ATM' in s.kw else '')+('_OCN' if redistributed else '') + \
        f'_L{s.L}'+(f'M{s.M}' if s.M not in (None, s.L) else '') + \
        (f'_r{radius}km' if radius else '')+('_FL' if k.destripe else '')

    def compare(want, tail, key):
        for i, name in enumerate(x.names):
            path = os.path.join(out, f'{name}{stem}{tail}.txt')
            c.ok(os.path.exists(path), 'file', got=os.listdir(out), want=path)
            r = series_of(path)
            c.eq([int(v) for v in r[:, 0]], s.used, 'months')
            c.close(r[:, 1], s.time, 'time', rtol=0, atol=6e-5)
            c.close(r[:, 2], want[i], key, rtol=0, atol=1e-7*size[i].max()+1e-9)
            c.close(r[:, 3], np.full(len(r), sigma[i]), 'error', rtol=1e-7, atol=1e-9)
            c.close(r[:, 4], np.full(len(r), x.area[i]/1e10), 'area', rtol=1e-9, atol=6e-6)
            c.eq(os.stat(path).st_mode & 0o777, 0o640, 'mode')

    prog.run(c, 'calc_mascon', argv)
    c.eq(len(os.listdir(out)), nm, 'files')
    compare(want, '', 'mass')
    if form == 'ascii':
        # series are not reconstructed in ascii files: only stored errors
        prog.run(c, 'calc_mascon', argv)
        compare(want, '', 'again')
        return
    if redistributed and ocean is None:
        # the reconstruction looks for series without the redistribution
        return
    if mform != form:
        for path, (C, S) in zip(x.files, x.fields):
            h = g.harmonics(lmax=C.shape[0]-1, mmax=C.shape[1]-1)
            h.clm, h.slm = C.copy(), S.copy()
            h.to_file(re.sub(r'\.\w+$', '.'+SUFFIX[form], path), format=form, date=False)
        index = os.path.join(s.base, 'other.txt')
        with open(index, 'w') as fid:
            fid.write('\n'.join(re.sub(r'\.\w+$', '.'+SUFFIX[form], p) for p in x.files)+'\n')
    else:
        index = x.path
    rec = os.path.join(s.base, 'reconstruct.txt')
    more = ['--product', s.m.dset, '--start', s.lo, '--end', s.hi,
        '--output-directory', out, '--format', form, '--reconstruct-file', rec,
        '--mode', '640', *own, *love, '--mascon-file', index]
    i = k.argv.index('--gia') if '--gia' in k.argv else None
    if i is not None:
        more += k.argv[i:i+4]
    for flag, on in (('--destripe', k.destripe), ('--redistribute-mascons', ocean
            is not None), ('--atm-correction', 'ATM' in s.kw)):
        more += [flag] if on else []
    if radius:
        more += ['--radius', radius]
    if ocean is not None:
        more += ['--mask', mask]
    prog.run(c, 'mascon_reconstruct', more)
    files = [os.path.expanduser(r) for r in open(rec).read().split('\n') if r]
    c.eq([os.path.basename(p) for p in files], [f'{name}{stem}_{s.lo:03d}-'
        f'{s.hi:03d}.{SUFFIX[form]}' for name in x.names], 'reconstructed')
    C, S = 0.0, 0.0
    for i, path in enumerate(files):
        scale = 1e15*np.round(want[i], 10)/x.area[i]
        a, b = loads[i][0][..., None]*scale, loads[i][1][..., None]*scale
        C, S = C+a, S+b
        h = g.harmonics().from_file(path, format=form)
        tol = 1e-7*np.abs(loads[i][0]).max()*1e15*(size[i].max()+.01)/x.area[i]
        c.eq([int(v) for v in np.atleast_1d(h.month)], s.used, 'months')
        c.close(np.atleast_1d(h.time), s.time, 'time', rtol=0, atol=6e-5)
        c.close(h.clm, a, 'field', rtol=0, atol=tol)
        c.close(h.slm, b, 'field', rtol=0, atol=tol)
    if c.chance(.5):
        # fields of a reconstruction at higher degrees and orders
        for path in files:
            h = g.harmonics().from_file(path, format=form)
            big = s.L+c.int(1, 3)
            full = g.harmonics(lmax=big, mmax=big)
            nt = len(np.atleast_1d(h.time))
            noise = float(np.abs(h.clm).max())
            full.clm = c.rng.normal(0, noise, (big+1, big+1, nt))
            full.slm = c.rng.normal(0, noise, (big+1, big+1, nt))
            full.clm[:s.L+1, :s.order+1] = h.clm.reshape(s.L+1, s.order+1, nt)
            full.slm[:s.L+1, :s.order+1] = h.slm.reshape(s.L+1, s.order+1, nt)
            full.time, full.month = np.atleast_1d(h.time), np.atleast_1d(h.month)
            full.to_file(path, format=form)
    if k.destripe:
        C, S = k.filter(s, C, S)
    size += np.abs(A) @ np.abs(take(C, S, terms))/1e15
    left = A @ take(k.clm-C, k.slm-S, terms)/1e15
    prog.run(c, 'calc_mascon', argv+['--remove-reconstruct',
        '--reconstruct-file', rec])
    compare(left, '_LEAKAGE', 'leakage')


@check.section('kernels', quick=40, thorough=600)
def kernels(c):
    """weights of a mascon in the spectral and spatial domains"""
    base = c.scratch()
    L = c.int(1, 10)
    M = c.pick(None, None, c.int(1, L))
    order = L if M is None else M
    lmin = c.pick(None, c.int(0, min(2, order)))
    terms = order_of(L, order, 1 if lmin is None else lmin)
    form = c.cycle('netCDF4', 'HDF5', 'ascii')
    solver = c.pick('lstsq', 'gelsd', 'gelsy', 'gelss')
    nm = c.int(1, min(6, len(terms)-1 if len(terms) > 1 else 1))
    conserve = c.chance(.4) and (lmin != 0 or len(terms) > 1)
    # mass conserving loads have no degree zero
    if len(terms) <= 9 and c.chance(.5) and not (conserve and lmin == 0):
        solver, nm = 'inv', len(terms)
    os.makedirs(os.path.join(base, 'mascons'))
    x = Mascons(c, os.path.join(base, 'mascons'), L, order, nm, form)
    radius = c.pick(0, 0, c.int(100, 900))
    method = c.pick(1, 1, 2)
    love, frame = c.int(0, 4), c.pick('CF', 'CE')
    ga, lon, lat, d, kind = grid_of(c)
    out = os.path.join(base, 'out', *c.pick((), ('new', 'run')))
    argv = ['--output-directory', out, '--lmax', L, '--love', love,
        '--reference', frame, '--format', form, '--mascon-file', x.path,
        '--fit-method', method, '--solver', solver, '--mode', '640']+ga
    if M is not None:
        argv += ['--mmax', M]
    if lmin is not None:
        argv += ['--lmin', lmin]
    if radius:
        argv += ['--radius', radius]
    spatial = c.chance(.6)
    argv += ['--spatial'] if spatial else []
    ocean = None
    if conserve:
        mask = mask_file(c, base)
        ocean = g.ocean_stokes(mask, L, MMAX=order, LOVE=love_of(L, love, frame))
        argv += ['--redistribute-mascons', '--mask', mask]
    c.note(L=L, M=M, lmin=lmin, form=form, solver=solver, n=nm, radius=radius,
        method=method, love=love, frame=frame, grid=kind, spatial=spatial,
        ocean=ocean is not None)
    prog.run(c, 'calc_sensitivity_kernel', argv)
    hl, kl, ll = love_of(L, love, frame)
    loads = x.loads(L, order, ocean)
    A, f = solution(loads, x.area, terms, weights(radius, L), kl, method)
    if method == 1:
        A = A*(.75/(np.pi*RHO*RAD**3)/f)[None, :]
    tail = ('_OCN' if ocean is not None else '')+f'_L{L}' + \
        (f'M{M}' if M not in (None, L) else '') + \
        (f'_r{radius}km' if radius else '')+'.'+SUFFIX[form]
    want = [f'{n}_SKERNEL_CLM{tail}' for n in x.names]
    want += [f'{n}_SKERNEL{tail}' for n in x.names] if spatial else []
    c.eq(sorted(os.listdir(out)), sorted(want), 'files')
    for i, name in enumerate(x.names):
        K = np.zeros((2, L+1, order+1))
        for j, t in enumerate(terms):
            K[t] = A[i, j]
        path = os.path.join(out, f'{name}_SKERNEL_CLM{tail}')
        h = g.harmonics().from_file(path, format=form, date=False)
        c.near(h.clm, K[0], 'kernel', tol=1e-6)
        c.near(h.slm, K[1], 'kernel', tol=1e-6)
        c.eq(os.stat(path).st_mode & 0o777, 0o640, 'mode')
        if spatial and not (form == 'ascii' and method == 2):
            z = ref.synth(K[0], K[1], lon, lat).T
            v = read_grid(os.path.join(out, f'{name}_SKERNEL{tail}'), form, date=False)
            if form == 'ascii':
                c.eq(len(v['z']), z.size, 'map-points')
                c.close(v['z'], z.ravel(), 'map', rtol=1e-6,
                    atol=6e-5+1e-6*np.abs(z).max())
            else:
                c.close(v['lon'], lon, 'map-lon', rtol=0, atol=1e-9)
                c.close(v['lat'], lat, 'map-lat', rtol=0, atol=1e-9)
                c.near(v['z'], z, 'map', tol=1e-6)


@check.section('reconstruct', quick=30, thorough=400)
def reconstruct(c):
    """fields of given series"""
    base = c.scratch()
    L = c.int(1, 9)
    M = c.pick(None, None, c.int(1, L))
    order = L if M is None else M
    form = c.cycle('netCDF4', 'HDF5')
    os.makedirs(os.path.join(base, 'mascons'))
    x = Mascons(c, os.path.join(base, 'mascons'), L, order, c.int(1, 5), form)
    radius = c.pick(0, 0, c.int(100, 900))
    dset = c.pick('GSM', 'GAC', 'GAD')
    ds, atm = c.chance(.3), c.chance(.3)
    lo = c.int(4, 200)
    months = [m for m in range(lo, lo+c.pick(1, c.int(2, 8))) if m == lo or c.chance(.8)]
    love, frame = c.int(0, 4), c.pick('CF', 'CE', 'CM')
    out = os.path.join(base, 'out', *c.pick((), ('new', 'run')))
    os.makedirs(out)
    argv = ['--output-directory', out, '--product', dset, '--lmax', L, '--love',
        love, '--reference', frame, '--format', form, '--mascon-file', x.path,
        '--start', lo, '--end', months[-1], '--mode', '640',
        '--reconstruct-file', os.path.join(base, 'rec.txt')]
    argv += ['--mmax', M] if M is not None else []
    argv += ['--radius', radius] if radius else []
    argv += ['--destripe'] if ds else []
    argv += ['--atm-correction'] if atm else []
    ocean = None
    if c.chance(.3):
        mask = mask_file(c, base)
        ocean = g.ocean_stokes(mask, L, MMAX=order, LOVE=love_of(L, love, frame))
        argv += ['--redistribute-mascons', '--mask', mask]
    stem = ('' if dset == 'GSM' else f'_{dset}')+('_wATM' if atm else '') + \
        ('_OCN' if ocean is not None else '')+f'_L{L}' + \
        (f'M{M}' if M not in (None, L) else '') + \
        (f'_r{radius}km' if radius else '')+('_FL' if ds else '')
    t = 2002+(np.array(months)-.5)/12
    mass = []
    for name in x.names:
        v = np.round(c.rng.standard_normal(len(months))*100, 6)
        mass.append(v)
        with open(os.path.join(out, f'{name}{stem}.txt'), 'w') as f:
            for i, m in enumerate(months):
                f.write(f'{m:03d} {t[i]:12.4f} {v[i]:16.10f} {1.0:16.10f} {3.0:16.5f}\n')
    c.note(L=L, M=M, form=form, months=months, love=love, frame=frame)
    prog.run(c, 'mascon_reconstruct', argv)
    for i, (C, S) in enumerate(x.loads(L, order, ocean)):
        h = g.harmonics().from_file(os.path.join(out, f'{x.names[i]}{stem}_{lo:03d}-'
            f'{months[-1]:03d}.{SUFFIX[form]}'), format=form)
        h.expand_dims()
        w = 1e15*mass[i]/x.area[i]
        c.eq([int(v) for v in h.month], months, 'months')
        c.close(h.time, np.round(t, 4), 'time', rtol=0, atol=1e-9)
        c.near(h.clm, C[..., None]*w, 'field', tol=1e-10)
        c.near(h.slm, S[..., None]*w, 'field', tol=1e-10)


@check.section('decorrelated', quick=3, thorough=40)
def decorrelated(c):
    """degrees high enough for the decorrelation to change coefficients"""
    c.wide = True
    mascons(c)
