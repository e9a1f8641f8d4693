"""M04: gradients and geostrophic currents."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref

check = Check('M04', 'each case draws coefficients and a grid away from the '
    'poles and compares the vector field with analytic derivatives of the '
    'independently evaluated field (and the currents with geostrophic balance '
    'of the pressure field)',
    ['one overall sign, common to both gradient components, is treated as the '
     'library\'s convention; meridional currents are positive in the direction '
     'of increasing colatitude',
     'currents are judged for coefficients of degree 2 to LMAX-2, where the '
     'truncated recursion is closed'])


def derivs(clm, slm, lon, lat):
    L, M = clm.shape[0]-1, clm.shape[1]-1
    th, phi = np.radians(90-lat), np.radians(lon)
    P, dP = ref.plm(L, th, M)
    P, dP = P.astype(float), dP.astype(float)
    m = np.arange(M+1)
    C, S = np.cos(np.outer(phi, m)), np.sin(np.outer(phi, m))
    A, B = (np.einsum('lm,lmk->mk', x, P) for x in (clm, slm))
    dA, dB = (np.einsum('lm,lmk->mk', x, dP) for x in (clm, slm))
    dth = C @ dA + S @ dB
    dph = C @ (m[:, None]*B) - S @ (m[:, None]*A)
    return dth, dph


def axes(c):
    n, k = c.int(2, 14), c.int(2, 10)
    lon = c.rng.uniform(-180, 360, n) if c.chance(.5) else np.arange(n)*360.0/n
    lat = c.rng.uniform(-85, 85, k)
    return lon, lat


@check.section('gradient', quick=70, thorough=500)
def gradient(c):
    L = c.index+1 if c.index < 10 else c.int(1, 40)
    M = L if c.chance(.5) else c.int(0, L)
    lmin = 0 if c.chance(.6) else c.int(0, L)
    clm, slm = ref.random_coeffs(c.rng, L, M)
    lon, lat = axes(c)
    c.note(L=L, M=M, lmin=lmin, grid=(len(lon), len(lat)))
    G = g.harmonic_gradients(clm, slm, lon, lat, LMIN=lmin, LMAX=L, MMAX=M)
    clm[:lmin], slm[:lmin] = 0, 0
    dth, dph = derivs(clm, slm, lon, lat)
    east, south = dph/np.sin(np.radians(90-lat)), dth
    scale = max(np.abs(east).max(), np.abs(south).max(), 1e-12)
    c.eq(G.shape, (len(lon), len(lat), 2), 'shape')
    # the library returns (west, south): both derivatives of one sign choice
    c.close(G[..., 0], -east, 'zonal', rtol=0, atol=1e-8*scale)
    c.close(G[..., 1], south, 'meridional', rtol=0, atol=1e-8*scale)


@check.section('gradient-default', quick=8, thorough=40)
def default(c):
    L = c.int(2, 30)
    clm, slm = ref.random_coeffs(c.rng, L)
    lon, lat = axes(c)
    c.note(L=L)
    a = g.harmonic_gradients(clm, slm, lon, lat, LMAX=0)
    b = g.harmonic_gradients(clm, slm, lon, lat, LMAX=L, MMAX=L)
    c.close(a, b, 'default-sizes', rtol=1e-12)


@check.section('currents', quick=60, thorough=400)
def currents(c):
    L = c.int(5, 40)
    clm, slm = ref.random_coeffs(c.rng, L, L, scale=1e-9, lmin=2)
    M = L if c.chance(.6) else c.int(0, L)
    clm[L-1:], slm[L-1:] = 0, 0
    hl, kl, ll = love = ref.love(c.rng, L)
    rho = 1.035 if c.chance(.5) else float(c.rng.uniform(1.0, 1.1))
    kw = {} if rho == 1.035 else {'DENSITY': rho}
    lon = axes(c)[0]
    lat = c.rng.uniform(10, 80, c.int(2, 6))*c.pick(-1, 1)
    th = np.radians(90-lat)
    if c.chance(.3):
        kw['PLM'] = ref.plm(L, th)[0].astype(float)
    c.note(L=L, M=M, rho=rho)
    U = g.geostrophic_currents(clm, slm, lon, lat, LMAX=L, MMAX=M, LOVE=love,
        **kw)
    # pressure anomaly of the mass field (dyn/cm^2)
    l = np.arange(L+1.0)
    f = (ref.G_WMO*ref.RHO_E*ref.RAD_E/3*(2*l+1)/(1+kl))[:, None]
    a, b = clm.copy()[:, :M+1], slm.copy()[:, :M+1]
    dth, dph = derivs(f*a, f*b, lon, lat)
    k = 1/(2*ref.OMEGA*np.cos(th)*rho*ref.RAD_E)
    scale = np.abs(k*dth).max() + np.abs(k*dph/np.sin(th)).max()
    c.eq(U.shape, (len(lon), len(lat), 2), 'shape')
    c.close(U[..., 0], k*dth, 'zonal', rtol=0, atol=1e-9*scale)
    c.close(U[..., 1], -k*dph/np.sin(th), 'meridional', rtol=0,
        atol=1e-9*scale)


@check.section('currents-options', quick=24, thorough=150)
def options(c):
    L = c.int(5, 30)
    clm, slm = ref.random_coeffs(c.rng, L, L, scale=1e-9, lmin=2)
    love = ref.love(c.rng, L)
    lon, lat = axes(c)[0], c.rng.uniform(10, 80, 4)
    kw = dict(LMAX=L, LOVE=love)
    base = g.geostrophic_currents(clm, slm, lon, lat, **kw)
    c.near(g.geostrophic_currents(clm, slm, lon, lat, LMAX=0, LOVE=love), base,
        'size', 1e-12)
    k = c.rng.uniform(-3, 3)
    c.note(L=L)
    c.near(g.geostrophic_currents(k*clm, k*slm, lon, lat, **kw), k*base,
        'linear', 1e-10)
    c.near(g.geostrophic_currents(clm, slm, lon, lat, DENSITY=2.07, **kw),
        base/2, 'density', 1e-10)
    # smoothing with a vanishing radius changes nothing; a wide one damps
    c.near(g.geostrophic_currents(clm, slm, lon, lat, RAD=1e-3, **kw), base,
        'narrow-smoothing', 1e-6)
    # meridional flow of a degree-weighted field equals a weighted field
    rad = float(c.rng.uniform(150, 300))
    w = ref.gauss(rad, L)[:, None]
    if w.min() > 1e-3:
        a = g.geostrophic_currents(clm, slm, lon, lat, RAD=rad, **kw)
        b = g.geostrophic_currents(w*clm, w*slm, lon, lat, **kw)
        c.near(a[..., 1], b[..., 1], 'smoothing', 1e-6)
    # meridional flow of the field without its degrees below LMIN
    lmin = c.int(0, L-1)
    a = g.geostrophic_currents(clm, slm, lon, lat, LMIN=lmin, **kw)
    t, u = clm.copy(), slm.copy()
    t[:lmin], u[:lmin] = 0, 0
    b = g.geostrophic_currents(t, u, lon, lat, **kw)
    c.close(a[..., 1], b[..., 1], 'lmin', rtol=0,
        atol=1e-9*np.abs(base).max())
