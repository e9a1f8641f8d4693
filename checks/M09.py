"""M09: point, disc and spherical-cap loads."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref

check = Check('M09', 'each case draws load positions, sizes, masses, input '
    'units and truncation and compares coefficients with the defining surface '
    'integral (zonal kernel by quadrature, rotated by the addition theorem)',
    ['a cap given by AREA may use either the planar or the spherical '
     'area-to-angle relation'])

R2 = ref.RAD_E**2


def ylm(lon, lat, L, M):
    """P_lm cos(m phi), P_lm sin(m phi) summed later; shape (l, m, n)"""
    P = ref.plm(L, np.radians(90-np.atleast_1d(lat)), M)[0].astype(float)
    mp = np.outer(np.arange(M+1), np.radians(np.atleast_1d(lon)))
    return P*np.cos(mp)[None], P*np.sin(mp)[None]


def capint(L, cosa):
    """(1/2) int_{cosa}^1 P_l dt, by quadrature"""
    x, w = np.polynomial.legendre.leggauss(L+20)
    t = (1-cosa)/2*x + (1+cosa)/2
    out = np.zeros(L+1)
    p0, p1 = np.ones_like(t), t
    for l in range(L+1):
        p = p0 if l == 0 else p1
        if l >= 2:
            p0, p1 = p1, ((2*l-1)*t*p1-(l-1)*p0)/l
            p = p1
        out[l] = (1-cosa)/2*np.sum(w*p)/2
    return out


def place(c, n=None):
    lon = c.rng.uniform(-180, 360, n)
    lat = c.rng.uniform(-90, 90, n)
    if n is None and c.chance(.15):
        lat = c.pick(90.0, -90.0, 0.0)
    return lon, lat


def dims(c, hi=40):
    L = c.index if c.index < 5 else c.int(1, hi)
    M = L if c.chance(.6) else c.int(0, L)
    return L, M, ({} if (M == L and c.chance(.6)) else {'MMAX': M})


def triangle(c, Y, L, M):
    c.eq((Y.clm.shape, Y.slm.shape), ((L+1, M+1), (L+1, M+1)), 'shape')
    c.eq((int(Y.lmax), int(Y.mmax)), (L, M), 'dimensions')
    up = np.arange(M+1)[None, :] > np.arange(L+1)[:, None]
    c.ok(not Y.clm[up].any() and not Y.slm[up].any(), 'triangular')
    c.ok(not Y.slm[:, 0].any(), 'no-sine-order-zero')


@check.section('point', quick=60, thorough=500)
def point(c):
    L, M, kw = dims(c)
    n = c.pick(1, 2, c.int(3, 30))
    lon, lat = place(c, n)
    d = c.rng.standard_normal(n)
    units = c.pick(1, 2, 'list', 'array')
    love = ref.love(c.rng, L)
    shape = (n,)
    if n % 2 == 0 and c.chance(.5):
        shape = (2, n//2)
    c.note(L=L, M=M, n=n, units=units, shape=shape)
    f = ref.factors_spatial(L, *love)['cmwe']/R2
    if units in ('list', 'array'):
        f = c.rng.uniform(.5, 2, L+1)
        U = list(f) if units == 'list' else f
        Y = g.gen_point_load(d.reshape(shape), lon.reshape(shape),
            lat.reshape(shape), LMAX=L, UNITS=U, **kw)
    else:
        if units == 2:
            f = f*1e15
        u = {} if units == 1 and c.chance(.5) else {'UNITS': units}
        Y = g.gen_point_load(d.reshape(shape), lon.reshape(shape),
            lat.reshape(shape), LMAX=L, LOVE=love, **u, **kw)
    C, S = ylm(lon, lat, L, M)
    triangle(c, Y, L, M)
    c.near(Y.clm, f[:, None]*(C @ d), 'clm', 1e-9)
    tol = 1e-9*np.abs(f[:, None]*(C @ d)).max()
    c.close(Y.slm, f[:, None]*(S @ d), 'slm', rtol=1e-9, atol=tol)


@check.section('disc', quick=60, thorough=500)
def disc(c):
    L, M, kw = dims(c)
    lon, lat = place(c)
    area = float(10**c.rng.uniform(3, 7.5))
    d = float(c.rng.normal()*10)
    units = c.pick(1, 2, 3, 'array', None)
    love = ref.love(c.rng, L)
    c.note(L=L, M=M, lat=lat, area=area, units=units)
    ca = 1-1e10*area/(2*np.pi*R2)
    k = capint(L, ca)
    base = 4*np.pi*ref.factors_spatial(L, *love)['cmwe']
    conv = {1: 1.0, 2: 1e15/(1e10*area), 3: .1, None: 1e15/(1e10*area),
        'array': 1.0}[units]
    if c.chance(.3):
        kw = dict(kw, PLM=ref.plm(L, np.radians(90-lat))[0][..., 0].astype(float))
    if units == 'array':
        f = c.rng.uniform(.5, 2, L+1)
        # custom factors multiply the cap integral of P_(l-1)-P_(l+1)
        base = f*(2*np.arange(L+1)+1)
        Y = g.gen_disc_load(d, lon, lat, area, LMAX=L, UNITS=f, **kw)
    else:
        u = {} if units is None else {'UNITS': units}
        Y = g.gen_disc_load(d, lon, lat, area, LMAX=L, LOVE=love, **u, **kw)
    C, S = (v[..., 0] for v in ylm(lon, lat, L, M))
    w = (conv*d*base*k)[:, None]
    triangle(c, Y, L, M)
    top = np.abs(w*C).max()
    c.close(Y.clm, w*C, 'clm', rtol=1e-8, atol=1e-8*top)
    c.close(Y.slm, w*S, 'slm', rtol=1e-8, atol=1e-8*top)
    if units in (2, None):
        # total mass of the load: degree zero recovers the gigatonnes
        m = Y.clm[0, 0]*ref.factors_harmonic(L, *love)['cmwe'][0]*4*np.pi*R2
        c.close(m, d*1e15, 'mass', rtol=1e-9)


@check.section('cap', quick=80, thorough=600)
def cap(c):
    L, M, kw = dims(c)
    lon, lat = place(c)
    d = float(c.rng.normal()*10)
    units = c.pick(1, 2, 3, 'array', None)
    how = c.pick('RAD_CAP', 'RAD_KM', 'AREA')
    a = float(np.radians(10**c.rng.uniform(-1, 1.7)))
    love = ref.love(c.rng, L)
    if how == 'AREA':
        a = min(a, np.radians(1.0))
        size = np.pi*a*a*R2
    else:
        size = np.degrees(a) if how == 'RAD_CAP' else a*ref.RAD_E/1e5
    c.note(L=L, M=M, lat=lat, alpha=a, how=how, units=units)
    if c.chance(.3):
        kw = dict(kw, PLM=ref.plm(L, np.radians(90-lat))[0][..., 0].astype(float))
    k = capint(L, np.cos(a))
    area = 2*np.pi*R2*(1-np.cos(a))
    base = 4*np.pi*ref.factors_spatial(L, *love)['cmwe']
    conv = {1: 1.0, 2: 1e15/area, 3: .1, None: 1.0, 'array': 1.0}[units]
    kw[how] = size
    if units == 'array':
        f = c.rng.uniform(.5, 2, L+1)
        base = f*(2*np.arange(L+1)+1)
        Y = g.gen_spherical_cap(d, lon, lat, LMAX=L, UNITS=f, **kw)
    else:
        u = {} if units is None else {'UNITS': units}
        Y = g.gen_spherical_cap(d, lon, lat, LMAX=L, LOVE=love, **u, **kw)
    C, S = (v[..., 0] for v in ylm(lon, lat, L, M))
    w = (conv*d*base*k)[:, None]
    triangle(c, Y, L, M)
    top = np.abs(w*C).max()
    # planar against spherical area: relative difference alpha^2/12 < 3e-5
    tol = 1e-4 if how == 'AREA' else 1e-8
    c.close(Y.clm, w*C, 'clm', rtol=tol, atol=tol*top)
    c.close(Y.slm, w*S, 'slm', rtol=tol, atol=tol*top)
    if units == 2:
        m = Y.clm[0, 0]*ref.factors_harmonic(L, *love)['cmwe'][0]*4*np.pi*R2
        c.close(m, d*1e15, 'mass', rtol=1e-4 if how == 'AREA' else 1e-9)


@check.section('consistency', quick=30, thorough=300)
def consistency(c):
    """small discs and caps approach points; power is rotation invariant;
    loads superpose"""
    L = c.int(2, 20)
    love = ref.love(c.rng, L)
    lon, lat = place(c)
    area = 10.0
    c.note(L=L, lat=lat)
    D = g.gen_disc_load(1.0, lon, lat, area, LMAX=L, UNITS=2, LOVE=love)
    P = g.gen_point_load(np.array([1.0]), np.array([lon]), np.array([lat]),
        LMAX=L, UNITS=2, LOVE=love)
    K = g.gen_spherical_cap(1.0, lon, lat, LMAX=L, UNITS=2, LOVE=love,
        AREA=1e10*area)
    for X, n in ((D, 'disc'), (K, 'cap')):
        c.close(X.clm, P.clm, f'{n}-to-point', rtol=0,
            atol=1e-4*np.abs(P.clm).max())
        c.close(X.slm, P.slm, f'{n}-to-point-sine', rtol=0,
            atol=1e-4*np.abs(P.clm).max())
    lon2, lat2 = place(c)
    A = g.gen_spherical_cap(1.0, lon2, lat2, LMAX=L, UNITS=1, LOVE=love,
        RAD_CAP=5.0)
    B = g.gen_spherical_cap(1.0, lon, lat, LMAX=L, UNITS=1, LOVE=love,
        RAD_CAP=5.0)
    pa = (A.clm**2+A.slm**2).sum(axis=1)
    pb = (B.clm**2+B.slm**2).sum(axis=1)
    c.close(pa, pb, 'degree-power', rtol=1e-8, atol=1e-10*pa.max())
    both = g.gen_point_load(np.array([1.0, 2.0]), np.array([lon, lon2]),
        np.array([lat, lat2]), LMAX=L, LOVE=love)
    one = g.gen_point_load(np.array([1.0]), np.array([lon]), np.array([lat]),
        LMAX=L, LOVE=love)
    two = g.gen_point_load(np.array([2.0]), np.array([lon2]),
        np.array([lat2]), LMAX=L, LOVE=love)
    c.near(both.clm, one.clm+two.clm, 'superposition', 1e-9)
    c.raises(ValueError, 'unknown-units', g.gen_point_load, np.ones(1),
        np.ones(1), np.ones(1), LMAX=L, UNITS=9, LOVE=love)
    c.raises(ValueError, 'unknown-units-disc', g.gen_disc_load, 1.0, 0.0, 0.0,
        10.0, LMAX=L, UNITS=9, LOVE=love)
    c.raises(ValueError, 'no-cap-size', g.gen_spherical_cap, 1.0, 0.0, 0.0,
        LMAX=L, LOVE=love)
