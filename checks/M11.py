"""M11: sea level equation."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check, Skip
from rv import ref
from checks.M03 import rectangle

check = Check('M11', 'each case draws a land mask, an ice load, Love numbers '
    'and options, runs the solver, and checks conservation of mass, the '
    'support of the field, the fixed-point equation and agreement with an '
    'independent fixed-point iteration',
    ['the solver may stop after any number of iterations up to ITERATIONS: its '
     'output must equal one of the reference iterates',
     'oracle tolerance 1e-7 of the largest sea level change'])


def klf_of(kind):
    if isinstance(kind, tuple):
        return kind[0]
    om = 7.292115e-5
    return {0: 0.00328475/0.00348118,
        1: 3*3.986004418e14/305.51*.33068/(6.371e6**3*om**2),
        2: 2/298.257223563*9.80665/(om**2*6.371e6)-1, 3: .942}[kind]


def world(c):
    n = c.int(12, 20) if c.quick else c.int(12, 36)
    d = 180.0/n
    if c.chance(.5):
        lat, lon = 90-d/2-d*np.arange(n), d/2+d*np.arange(2*n)
    else:
        lat, lon = 90-d*np.arange(n+1), d*np.arange(2*n)
    if c.chance(.4):
        lat = lat[::-1].copy()
    lc, ls = ref.random_coeffs(c.rng, 5, 5, decay=.7)
    f = ref.synth(lc, ls, lon, lat)
    land = (f > np.quantile(f, c.rng.uniform(.55, .85))).astype(float)
    return lon, lat, land


def iterate(load, lon, lat, ocean, L, love, k2b, h2b, klf, polar, n):
    hl, kl, ll = love
    lc, ls = load
    R, rho = ref.RAD_E, ref.RHO_E
    l = np.arange(L+1.0)[:, None]
    gam = (1+kl-hl)[:, None]
    H = 3*gam/rho/(2*l+1)*np.ones((1, L+1))
    Pf = gam/(1+kl)[:, None]*np.ones((1, L+1))
    if polar:
        q = (1+k2b-h2b)*(1+kl[2])/(klf-k2b)
        H[2, 1] += 3*q/rho/5
        Pf[2, 1] += q/(1+kl[2])
    mass = 4*np.pi*R**3*rho*lc[0, 0]/3
    oc, os_ = (v/(4*np.pi) for v in rectangle(ocean, lon, lat, L, L))
    area = 4*np.pi*oc[0, 0]
    h = -mass/R**2/area
    hc, hs = oc*h, os_*h
    out, change = [], []
    for _ in range(n):
        before = np.hypot(hc, hs).sum()
        psi = ref.synth(H*hc + R*Pf*lc, H*hs + R*Pf*ls, lon, lat)
        S = ocean*psi
        yc, ys = (v/(4*np.pi) for v in rectangle(S, lon, lat, L, L))
        dh = (-mass/R**2 - 4*np.pi*yc[0, 0])/area
        S = S + dh*ocean
        hc, hs = yc + dh*oc, ys + dh*os_
        out.append(S)
        change.append(abs(np.hypot(hc, hs).sum()/before - 1))
    return out, change, mass


@check.section('solver', quick=60, thorough=400)
def solver(c):
    lon, lat, land = world(c)
    L = c.int(2, 12) if c.quick else c.int(2, 20)
    hl, kl, ll = love = ref.love(c.rng, L)
    # an ice load on land, as geoid coefficients
    n = c.int(1, 4)
    ii, jj = np.nonzero(land)
    k = c.rng.integers(0, len(ii), n)
    m = c.rng.uniform(-300, 300, n)
    Y = ref.plm(L, np.radians(90-lat[jj[k]]))[0].astype(float)
    mp = np.outer(np.arange(L+1), np.radians(lon[ii[k]]))
    f = (ref.factors_spatial(L, *love)['cmwe']*1e15/ref.RAD_E**2)[:, None]
    lc = f*np.einsum('lmk,mk,k->lm', Y, np.cos(mp), m)
    ls = f*np.einsum('lmk,mk,k->lm', Y, np.sin(mp), m)
    if abs(m.sum()) < 20:
        raise Skip
    body = c.cycle(0, 1, (float(c.rng.uniform(.25, .35)),
        float(c.rng.uniform(.5, .7))), None)
    fluid = c.pick(0, 1, 2, 3, (float(c.rng.uniform(.9, 1.0)),), None)
    polar = c.pick(True, True, False)
    iters = c.pick(1, 2, 3, 6, 10)
    kw = dict(ITERATIONS=iters)
    if body is not None:
        kw['BODY_TIDE_LOVE'] = body
    if fluid is not None:
        kw['FLUID_LOVE'] = fluid
    if not polar or c.chance(.5):
        kw['POLAR'] = polar
    fill = c.pick(0, 0, -9999.0)
    if fill:
        kw['FILL_VALUE'] = fill
    if c.chance(.3):
        kw['PLM'] = ref.plm(L, np.radians(90-lat))[0].astype(float)
    if c.chance(.2):
        kw['ASTYPE'], kw['SCALE'] = np.float64, 1e-200
    c.note(L=L, shape=land.shape, body=body, fluid=fluid, polar=polar,
        iters=iters, fill=fill, points=n)
    k2b, h2b = {0: (.298, .604), 1: (.3055, .6149), None: (.298, .604)}.get(
        body, body)
    klf = klf_of(0 if fluid is None else fluid)
    keep = lc.copy(), ls.copy(), land.copy()
    S = g.sea_level_equation(lc, ls, lon, lat, land, LMAX=L, LOVE=love, **kw)
    c.ok(np.array_equal(keep[0], lc) and np.array_equal(keep[1], ls)
        and np.array_equal(keep[2], land), 'pure')
    c.eq(S.shape, land.shape, 'shape')
    c.ok(np.all(S[land == 1] == fill), 'land', 'no sea level over land')
    S = np.where(land == 1, 0.0, S)
    ocean = 1-land
    ref_it, change, mass = iterate((lc, ls), lon, lat, ocean, L, love, k2b, h2b, klf,
        polar, max(iters, 25))
    top = np.abs(ref_it[-1]).max()
    # conservation of mass: the ocean takes up exactly what land lost
    got = rectangle(S, lon, lat, 0, 0)[0][0, 0]*ref.RAD_E**2
    c.close(got, -mass, 'mass', rtol=1e-8)
    err = [np.abs(S-r).max()/top for r in ref_it[:iters]]
    c.ok(min(err) < 1e-7, 'iterate', f'no reference iterate within 1e-7: '
        f'{[f"{e:.2e}" for e in err]}')
    # it stops before ITERATIONS only when the harmonics have settled
    k = int(np.argmin(err))
    c.ok(k == iters-1 or change[k] < 1e-3, 'settled', f'stopped after '
        f'{k+1} of {iters} iterations, the last changed {change[k]:.3g}')


@check.section('physics', quick=8, thorough=60)
def physics(c):
    """linear in the load; a uniform ocean planet without load stays flat"""
    lon, lat, land = world(c)
    L = c.int(2, 10)
    love = ref.love(c.rng, L)
    lc, ls = ref.random_coeffs(c.rng, L, L, decay=1.5, scale=1e-9)
    lc[0, 0] = 1e-9
    c.note(L=L, shape=land.shape)
    kw = dict(LMAX=L, LOVE=love, ITERATIONS=1)
    a = g.sea_level_equation(lc, ls, lon, lat, land, **kw)
    b = g.sea_level_equation(-2.5*lc, -2.5*ls, lon, lat, land, **kw)
    c.near(b, -2.5*a, 'linear', 1e-9)
    # rotational feedback is a pure degree-two order-one response
    off = g.sea_level_equation(lc, ls, lon, lat, land, POLAR=False, **kw)
    d = a-off
    oc = land == 0
    th, ph = np.radians(90-lat), np.radians(lon)
    basis = np.stack([np.ones(land.shape),
        np.outer(np.cos(ph), np.sin(th)*np.cos(th)),
        np.outer(np.sin(ph), np.sin(th)*np.cos(th))], axis=-1)[oc]
    sol = np.linalg.lstsq(basis, d[oc], rcond=None)[0]
    c.ok(np.abs(basis @ sol - d[oc]).max() < 1e-9*np.abs(a).max(),
        'polar-shape')
    c.ok(np.abs(d).max() > 0, 'polar-active')
