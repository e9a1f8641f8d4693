"""M02: synthesis of spatial fields from harmonics."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref

check = Check('M02', 'each case draws coefficients (LMIN, LMAX, MMAX), a grid '
    'or a set of points and options, calls the four synthesis routines and '
    'compares every value with a direct extended-precision summation',
    ['reference: direct summation with the recursion of M01',
     'the FFT transform is driven on evenly spaced longitudes from 0 to 360 '
     'whose number exceeds the maximum order (its documented precondition)'])


def grid(c, even=False, mmax=0):
    if even:
        n = c.int(max(mmax+2, 3), max(mmax+2, 3)+30)
        lon = np.linspace(0.0, 360.0, n)
    else:
        n = c.int(1, 20)
        lon = c.rng.uniform(-180, 360, n) if c.chance(.5) else \
            np.arange(n)*(360.0/n) - c.pick(0.0, 180.0)
    k = c.int(1, 12)
    lat = c.rng.uniform(-89.9, 89.9, k)
    if c.chance(0.5):
        lat = np.linspace(90, -90, k+2)
        if c.chance(0.5):
            lat = lat[::-1].copy()
    return lon, lat


def coeffs(c, small=True):
    if c.index < 10:
        L = c.index + 1
    else:
        L = c.int(1, 40 if small else 90)
    M = L if c.chance(0.5) else c.int(0, L)
    clm, slm = ref.random_coeffs(c.rng, L, M, decay=c.pick(0.0, 1.0, 2.0))
    return L, M, clm, slm


def cut(clm, lmin, L, M):
    out = np.zeros((L+1, M+1))
    out[lmin:L+1, :M+1] = clm[lmin:L+1, :M+1]
    return out


@check.section('summation', quick=90, thorough=900)
def summation(c):
    L0, M0, clm, slm = coeffs(c)
    L = L0 if c.chance(0.5) else c.int(1, L0)
    M = min(M0, L) if c.chance(0.5) else c.int(0, min(M0, L))
    lmin = 0 if c.chance(0.6) else c.int(0, L)
    lon, lat = grid(c)
    c.note(L0=L0, L=L, M=M, lmin=lmin, grid=(len(lon), len(lat)))
    if len(lat) < 1:
        return
    want = ref.synth(cut(clm, lmin, L, M), cut(slm, lmin, L, M), lon, lat)
    kw = {}
    if c.chance(0.4):
        kw['PLM'] = ref.plm(L, np.radians(90-lat))[0].astype(float)
    if len(lon) > 1 and len(lat) > 1:
        got = g.harmonic_summation(clm, slm, lon, lat, LMIN=lmin, LMAX=L,
            MMAX=M, **kw)
        c.near(got, want, 'summation', 1e-11)
        if L == L0 and M0 == L0 and M == L0:
            # sizes taken from the coefficients and default order
            got = g.harmonic_summation(clm, slm, lon, lat, LMIN=lmin, LMAX=0)
            c.near(got, want, 'summation-default', 1e-11)
        if L == L0 and M == M0:
            # degrees taken from arrays that may end at the maximum order
            got = g.harmonic_summation(clm, slm, lon, lat, LMIN=lmin, LMAX=0,
                MMAX=M)
            c.near(got, want, 'summation-degrees', 1e-11)
    # points
    n = c.int(1, 12)
    lo, la = c.rng.uniform(-180, 360, n), c.rng.uniform(-90, 90, n)
    if c.chance(.3):
        la[0] = c.pick(90.0, -90.0, 0.0)
    full = np.zeros((2, L+1, L+1))
    full[0, :, :M+1], full[1, :, :M+1] = cut(clm, 0, L, M), cut(slm, 0, L, M)
    got = g.clenshaw_summation(full[0], full[1], lo, la, LMAX=L,
        UNITS=np.ones(L+1))
    c.near(got, ref.synth_points(full[0], full[1], lo, la), 'clenshaw', 1e-10)
    if M < L:
        # arrays that end at the maximum order
        got = g.clenshaw_summation(full[0][:, :M+1], full[1][:, :M+1], lo, la,
            LMAX=L, UNITS=np.ones(L+1))
        c.near(got, ref.synth_points(full[0], full[1], lo, la),
            'clenshaw-orders', 1e-10)
    if c.chance(0.3):
        got = g.clenshaw_summation(full[0], full[1], lo, la,
            UNITS=np.ones(L+1))
        c.near(got, ref.synth_points(full[0], full[1], lo, la),
            'clenshaw-default', 1e-10)


@check.section('transform', quick=60, thorough=600)
def transform(c):
    L0, M0, clm, slm = coeffs(c)
    L = L0 if c.chance(0.5) else c.int(1, L0)
    M = min(M0, L) if c.chance(0.5) else c.int(0, min(M0, L))
    lmin = 0 if c.chance(0.6) else c.int(0, L)
    lon, lat = grid(c, even=True, mmax=M)
    if len(lat) < 2:
        lat = np.array([30.0, -20.0])
    c.note(L0=L0, L=L, M=M, lmin=lmin, grid=(len(lon), len(lat)))
    want = ref.synth(cut(clm, lmin, L, M), cut(slm, lmin, L, M), lon, lat)
    kw = {}
    if c.chance(0.4):
        kw['PLM'] = ref.plm(L, np.radians(90-lat))[0].astype(float)
    got = g.harmonic_transform(clm, slm, lon, lat, LMIN=lmin, LMAX=L, MMAX=M,
        **kw)
    c.near(got, want, 'transform', 1e-11)
    if L == L0 == M0 == M:
        got = g.harmonic_transform(clm, slm, lon, lat, LMIN=lmin, LMAX=0)
        c.near(got, want, 'transform-default', 1e-11)
    if L == L0 and M == M0:
        got = g.harmonic_transform(clm, slm, lon, lat, LMIN=lmin, LMAX=0, MMAX=M)
        c.near(got, want, 'transform-degrees', 1e-11)


UNITS = [0, 1, 2, 3, 4, 5, 6, 'norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH',
    'microGal', 'mbar', 'Pa', 'cmVCU', 'mVCU', 'array', 'list']


@check.section('units-and-smoothing', quick=80, thorough=600)
def converted(c):
    L = c.int(2, 45)
    M = L if c.chance(.5) else c.int(0, L)
    clm, slm = ref.random_coeffs(c.rng, L, M, scale=1e-9)
    love = ref.love(c.rng, L)
    code = c.cycle(UNITS)
    custom = c.rng.uniform(0.5, 2.0, L+1)
    if code in ('array', 'list'):
        units = custom if code == 'array' else list(custom)
        f = custom
    else:
        units = code
        f = ref.factors_harmonic(L, *love)[ref.BYCODE[code]
            if isinstance(code, int) else code]
    rad = 0 if c.chance(.4) else float(c.rng.uniform(100, 400))
    w = ref.gauss(rad, L)
    c.note(L=L, M=M, units=code, radius=rad)
    n = c.int(2, 8)
    lon, lat = c.rng.uniform(-180, 360, n), c.rng.uniform(-89, 89, n)
    full = np.zeros((2, L+1, L+1))
    full[0, :, :M+1], full[1, :, :M+1] = clm, slm
    k = (f*w)[:, None]
    # weights below 1e-6 are subject to the documented cutoff
    lim = 1e-7*np.sum(np.abs(k*0+f[:, None])*(np.abs(full[0])+np.abs(full[1])))
    tol = 1e-10*np.sum(np.abs(k)*(np.abs(full[0])+np.abs(full[1]))) + \
        (lim if rad and w.min() < 1e-5 else 0.0)
    tol *= np.sqrt(2*L+1)
    lmin = 0 if c.chance(.6) else c.int(0, L)
    got = g.stokes_summation(clm, slm, lon, lat, LMIN=lmin, LMAX=L, MMAX=M,
        RAD=rad, UNITS=units, LOVE=love)
    want = ref.synth(cut(k*clm, lmin, L, M), cut(k*slm, lmin, L, M), lon, lat)
    c.close(got, want, f'stokes-{code}', rtol=0, atol=tol)
    if M == L or c.chance(.5):
        # the size of the harmonics without a maximum degree
        kw = {} if M == L else {'MMAX': M}
        got = g.stokes_summation(clm, slm, lon, lat, LMIN=lmin, LMAX=0,
            RAD=rad, UNITS=units, LOVE=love, **kw)
        c.close(got, want, f'stokes-size-{code}', rtol=0, atol=tol)
    got = g.clenshaw_summation(full[0], full[1], lon, lat, RAD=rad,
        UNITS=units, LMAX=L, LOVE=love)
    want = ref.synth_points(k*full[0], k*full[1], lon, lat)
    c.close(got, want, f'clenshaw-{code}', rtol=0, atol=tol)


@check.section('high-degree', quick=2, thorough=12)
def high(c):
    L = c.int(100, 180)
    clm, slm = ref.random_coeffs(c.rng, L, L, decay=1.0)
    lon, lat = np.linspace(0, 360, L+40), c.rng.uniform(-85, 85, 3)
    c.note(L=L)
    want = ref.synth(clm, slm, lon, lat)
    c.near(g.harmonic_summation(clm, slm, lon, lat, LMAX=L), want,
        'summation', 1e-10)
    c.near(g.harmonic_transform(clm, slm, lon, lat, LMAX=L), want,
        'transform', 1e-10)
    got = g.clenshaw_summation(clm, slm, lon[:3], lat, LMAX=L,
        UNITS=np.ones(L+1))
    c.near(got, ref.synth_points(clm, slm, lon[:3], lat), 'clenshaw', 1e-9)


@check.section('errors', quick=4, thorough=20)
def errors(c):
    L = c.int(2, 10)
    clm, slm = ref.random_coeffs(c.rng, L)
    lo, la = np.arange(5.0), np.arange(4.0)
    c.note(L=L)
    c.raises(ValueError, 'length-mismatch', g.clenshaw_summation, clm, slm,
        lo, la, LMAX=L, UNITS=np.ones(L+1))
    c.raises(ValueError, 'unknown-unit', g.stokes_summation, clm, slm, lo, la,
        LMAX=L, UNITS='furlong', LOVE=ref.love(c.rng, L))
    c.raises(AssertionError, 'longitudes', g.harmonic_transform, clm, slm,
        np.linspace(-180, 180, 37), la, LMAX=L)
    for lon in (np.arange(0, 360, 10.), np.linspace(10, 370, 37),
            np.linspace(0, 350, 37), np.linspace(0, 720, 73)):
        c.raises(AssertionError, 'longitudes', g.harmonic_transform, clm, slm,
            lon, la, LMAX=L)
