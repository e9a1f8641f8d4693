"""M07: Gaussian smoothing weights and averaging kernels."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref

check = Check('M07', 'each case draws a radius and truncation and compares the '
    'weights with a Gauss-Legendre quadrature of the Gaussian cap function, or '
    'draws a region function and errors and compares the kernel with the '
    'regularised closed form',
    ['weights whose true size is below 2e-8 are only required to be that '
     'small: the library truncates its recursion there',
     'kernels are judged for radii where the smoothing weights stay above the '
     'truncation level'])


@check.section('weights', quick=90, thorough=900)
def weights(c):
    L = c.index if c.index < 4 else c.int(1, 200)
    hw = [0, 1e-12, 1.0, 10000.0][c.index % 4] if c.index < 12 else \
        float(c.pick(c.rng.uniform(0, 100), c.rng.uniform(100, 1000),
            c.rng.uniform(1000, 9000)))
    c.note(L=L, hw=hw)
    w = 2*np.pi*g.gauss_weights(hw, L)
    r = ref.gauss(hw if hw >= 1e-10 else 0, L)
    c.eq(w.shape, (L+1,), 'shape')
    c.close(w[0], 1.0, 'mass-conserving', rtol=1e-12,
        message='degree-zero weight')
    # forward recursion: rounding grows as the weights decay
    tol = np.minimum(1e-7, 1e-11 + 1e-8*r + 3e-14/np.maximum(r, 1e-12))
    if hw <= 1:
        tol = tol + 1e-6
    bad = np.abs(w-r) > tol
    c.ok(not bad.any(), 'weights', f'{bad.sum()} weights differ from the '
        f'quadrature (max {np.abs(w-r).max():.3g})')
    c.ok(np.all(w > 0) and np.all(w <= 1+1e-12), 'bounded')
    c.ok(np.all(np.diff(w) <= 1e-7), 'decreasing')


@check.section('radius', quick=20, thorough=200)
def radius(c):
    """a wider filter never damps less"""
    L = c.int(1, 90)
    r = np.sort(c.rng.uniform(50, 2500, 2))
    c.note(L=L, radii=r)
    a, b = g.gauss_weights(r[0], L), g.gauss_weights(r[1], L)
    c.ok(np.all(b <= a+1e-7), 'monotone-in-radius')
    # 50% at the half-width: field of the averaging function
    if r[0] > 4*20000.0/max(L, 1) and L >= 60:
        P = ref.plm(L, np.array([0.0, r[0]/6371.0]), 0)[0][:, 0, :]
        l = np.arange(L+1)
        f = (np.sqrt(2*l+1)*a*2*np.pi) @ P.astype(float)
        c.close(f[1]/f[0], 0.5, 'half-width', rtol=0, atol=0.02)


@check.section('kernel', quick=50, thorough=400)
def kernel(c):
    L = c.int(2, 60)
    M = L if c.chance(.6) else c.int(0, L)
    hw = float(c.rng.uniform(50, 300))
    if c.index % 5 == 4:
        # a radius of continents, where the tail of the function matters
        L, hw = c.int(2, 5), float(c.rng.uniform(2500, 9000))
        M = min(M, L)
    gc, gs = ref.random_coeffs(c.rng, L, L, decay=0.5)
    gc[0, 0] = c.rng.uniform(.01, 1)
    ec, es = [np.abs(v)*1e-11 for v in ref.random_coeffs(c.rng, L, L)]
    sigma = float(10**c.rng.uniform(-2, 2))
    units = c.pick(0, 1)
    if units == 1:
        ec, es = ec*1e11, es*1e11
    love = ref.love(c.rng, L)
    c.note(L=L, M=M, hw=hw, sigma=sigma, units=units)
    kw = {} if (M == L and c.chance(.5)) else {'MMAX': M}
    keep = [gc.copy(), gs.copy(), ec.copy(), es.copy()]
    K = g.gen_averaging_kernel(gc, gs, ec, es, sigma, hw, LMAX=L, UNITS=units,
        LOVE=love, **kw)
    R = ref.RAD_E/1e5
    b = np.log(2)/(1-np.cos(hw/R))
    # the region function's smoothing weights (Swenson and Wahr, 2002)
    gl = ref.gauss(hw, L, R)*(1-np.exp(-2*b))/b
    area = gc[0, 0]
    df = ref.factors_harmonic(L, *love)['cmwe'] if units == 0 else np.ones(L+1)
    a, s = gc[:, :M+1], gs[:, :M+1]
    s0sq = sigma**2*area**2/np.sum(gl[:, None]/2*(a**2+s**2))
    k = (df**2/gl/s0sq)[:, None]
    wc = a/(1+2*k*ec[:, :M+1]**2)/area
    ws = s/(1+2*k*es[:, :M+1]**2)/area
    c.close(K.clm, wc, 'clm', rtol=2e-6, atol=1e-14)
    c.close(K.slm, ws, 'slm', rtol=2e-6, atol=1e-14)
    c.ok(np.all(np.abs(K.clm) <= np.abs(a/area)*(1+1e-12)), 'never-amplifies')
    for x, y in zip(keep, (gc, gs, ec, es)):
        c.ok(np.array_equal(x, y), 'pure')
    # without errors the kernel is the exact averaging function
    z = np.zeros_like(ec)
    K0 = g.gen_averaging_kernel(gc, gs, z, z, sigma, hw, LMAX=L, UNITS=units,
        LOVE=love, **kw)
    c.close(K0.clm, a/area, 'error-free', rtol=1e-12)
    c.close(K0.slm, s/area, 'error-free-slm', rtol=1e-12)
    c.close(K0.clm[0, 0], 1.0, 'unit-mean', rtol=1e-12)
    c.eq((K.lmax, K.mmax), (L, M), 'dimensions')
