"""M03: analysis of spatial fields into harmonics."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref

check = Check('M03', 'each case synthesises a band-limited field with an '
    'independent direct summation on a random regular grid (orientation, '
    'pole-inclusive or cell-centred), analyses it with the library and '
    'compares the coefficients with the generating ones and with an '
    'independent quadrature',
    ['gridded integration is a rectangle rule: agreement with the generating '
     'coefficients is judged at its O(h^2) accuracy, agreement with an '
     'independently coded rectangle rule at 1e-10'])


def axes(c, L, factor, centred=None, closed=False):
    nlat = max(2*L, 6)*factor
    centred = c.chance(.5) if centred is None else centred
    if centred:
        d = 180.0/nlat
        lat = 90.0 - d/2 - d*np.arange(nlat)
        lon = d/2 + d*np.arange(2*nlat)
    else:
        d = 180.0/nlat
        lat = 90.0 - d*np.arange(nlat+1)
        lon = d*np.arange(2*nlat)
    if c.chance(.4):
        lat = lat[::-1].copy()
    if c.chance(.4):
        lon = np.where(lon > 180, lon-360, lon)
        lon = np.sort(lon)
    return lon, lat, centred


def rectangle(data, lon, lat, L, M):
    """sum of data*Y*sin(theta)*dphi*dtheta over the grid [lon, lat]"""
    th = np.radians(90-lat)
    P = ref.plm(L, th, M)[0].astype(float)
    w = np.sin(th)*np.radians(abs(lon[1]-lon[0]))*np.radians(abs(lat[1]-lat[0]))
    m = np.arange(M+1)
    A = np.cos(np.outer(m, np.radians(lon))) @ data
    B = np.sin(np.outer(m, np.radians(lon))) @ data
    return (np.einsum('lmk,mk,k->lm', P, A, w),
        np.einsum('lmk,mk,k->lm', P, B, w))


@check.section('fourier', quick=40, thorough=300)
def fourier(c):
    L = c.index+1 if c.index < 10 else c.int(1, 30 if c.quick else 50)
    M = L if c.chance(.5) else c.int(0, L)
    clm, slm = ref.random_coeffs(c.rng, L, M)
    lon, lat, centred = axes(c, L, c.int(2, 3))
    data = ref.synth(clm, slm, lon, lat)
    c.note(L=L, M=M, shape=data.shape, centred=centred, lat0=lat[0])
    sq = data.T if c.chance(.5) else data
    kw = {}
    if c.chance(.3):
        kw['PLM'] = g.fourier_legendre(L, L)
    Y = g.gen_harmonics(sq, lon, lat, LMAX=L, MMAX=M, METHOD='fourier', **kw)
    c.close(Y.clm, clm, 'clm', rtol=0, atol=1e-10)
    c.close(Y.slm, slm, 'slm', rtol=0, atol=1e-10)
    c.eq((int(Y.lmax), int(Y.mmax)), (L, M), 'dimensions')


@check.section('integration', quick=40, thorough=300)
def integration(c):
    L = c.index+1 if c.index < 8 else c.int(1, 30)
    M = L if c.chance(.5) else c.int(0, L)
    f = c.int(2, 4)
    clm, slm = ref.random_coeffs(c.rng, L, M)
    lon, lat, centred = axes(c, L, f)
    data = ref.synth(clm, slm, lon, lat)
    c.note(L=L, M=M, shape=data.shape, centred=centred)
    sq = data.T if c.chance(.5) else data
    kw = {}
    if c.chance(.3):
        kw['PLM'] = ref.plm(L, np.radians(90-lat))[0].astype(float)
    Y = g.gen_harmonics(sq, lon, lat, LMAX=L, MMAX=M, **kw)
    A, B = rectangle(data, lon, lat, L, M)
    c.close(Y.clm, A/(4*np.pi), 'clm-quadrature', rtol=0, atol=1e-11)
    c.close(Y.slm, B/(4*np.pi), 'slm-quadrature', rtol=0, atol=1e-11)
    h = np.radians(abs(lat[1]-lat[0]))
    tol = 6*(h*(L+1))**2*0.25 + 1e-9
    c.close(Y.clm, clm, 'clm-truth', rtol=0, atol=tol)
    c.close(Y.slm, slm, 'slm-truth', rtol=0, atol=tol)


@check.section('stokes', quick=60, thorough=500)
def stokes(c):
    L = c.index+1 if c.index < 6 else c.int(1, 30)
    M = L if c.chance(.5) else c.int(0, L)
    lmin = 0 if c.chance(.6) else c.int(0, L)
    clm, slm = ref.random_coeffs(c.rng, L, M)
    lon, lat, centred = axes(c, L, c.int(1, 3))
    data = ref.synth(clm, slm, lon, lat)
    if c.chance(.3):
        data = c.rng.standard_normal(data.shape)
    love = ref.love(c.rng, L)
    mode = c.cycle(1, 2, 3, 'array', 'list')
    spat = ref.factors_spatial(L, *love)
    A, B = rectangle(data, lon, lat, L, M)
    if mode == 1:
        f, units = spat['cmwe'], 1
    elif mode == 3:
        f, units = spat['mmwe'], 3
    elif mode == 2:
        # gigatonnes in each grid cell
        f, units = spat['cmwe']*1e15/ref.RAD_E**2, 2
        th = np.radians(90-lat)
        P = ref.plm(L, th, M)[0].astype(float)
        m = np.arange(M+1)
        A = np.einsum('lmk,mk->lm', P,
            np.cos(np.outer(m, np.radians(lon))) @ data)
        B = np.einsum('lmk,mk->lm', P,
            np.sin(np.outer(m, np.radians(lon))) @ data)
    else:
        f = c.rng.uniform(.5, 2, L+1)
        units = f if mode == 'array' else list(f)
    c.note(L=L, M=M, lmin=lmin, units=mode, shape=data.shape)
    kw = {}
    if c.chance(.3):
        kw['PLM'] = ref.plm(L, np.radians(90-lat))[0].astype(float)
    sq = data.T if c.chance(.5) else data
    lon0, lat0 = lon.copy(), lat.copy()
    Y = g.gen_stokes(sq, lon, lat, LMIN=lmin, LMAX=L, MMAX=M, UNITS=units,
        LOVE=love, **kw)
    keep = np.arange(L+1)[:, None] >= lmin
    c.near(Y.clm, np.where(keep, f[:, None]*A, 0), f'clm-{mode}', 1e-10)
    scale = np.abs(f[:, None]*A).max() + np.abs(f[:, None]*B).max()
    c.close(Y.slm, np.where(keep, f[:, None]*B, 0), f'slm-{mode}', rtol=0,
        atol=1e-10*scale)
    c.ok(np.array_equal(lon, lon0) and np.array_equal(lat, lat0),
        'axes-untouched')


@check.section('roundtrip', quick=12, thorough=80)
def roundtrip(c):
    """harmonics -> grid of water height -> harmonics"""
    L = c.int(2, 16)
    clm, slm = ref.random_coeffs(c.rng, L, scale=1e-9)
    love = ref.love(c.rng, L)
    lon, lat, centred = axes(c, L, 5, centred=True)
    data = g.stokes_summation(clm, slm, lon, lat, LMAX=L, UNITS=1, LOVE=love)
    Y = g.gen_stokes(data, lon, lat, LMAX=L, UNITS=1, LOVE=love)
    c.note(L=L, shape=data.shape)
    h = np.radians(abs(lat[1]-lat[0]))
    tol = 3*(h*(L+1))**2*1e-9/4
    c.close(Y.clm, clm, 'clm', rtol=0, atol=tol)
    c.close(Y.slm, slm, 'slm', rtol=0, atol=tol)


@check.section('linearity', quick=12, thorough=80)
def linear(c):
    L = c.int(1, 15)
    lon, lat, centred = axes(c, L, 2)
    shape = (len(lon), len(lat))
    a, b = c.rng.standard_normal((2,)+shape)
    s, t = c.rng.uniform(-3, 3, 2)
    meth = c.pick('fourier', 'integration', 'stokes')
    love = ref.love(c.rng, L)
    c.note(L=L, method=meth)

    def run(d):
        if meth == 'stokes':
            Y = g.gen_stokes(d, lon, lat, LMAX=L, LOVE=love)
        else:
            Y = g.gen_harmonics(d, lon, lat, LMAX=L, METHOD=meth)
        return np.array([Y.clm, Y.slm])
    c.near(run(s*a+t*b), s*run(a)+t*run(b), meth, 1e-9)
