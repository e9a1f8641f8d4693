"""M01: Legendre functions agree with an independent recursion."""
import math
import numpy as np
import gravity_toolkit as g
from rv.core import Check, mx
from rv import ref

check = Check('M01', 'each case draws degrees, orders, a method and a set of '
    'colatitudes (random, equator, near-polar, polar) and compares every '
    'returned value with an extended-precision recursion written for this '
    'check; a case is non-trivial when at least one value was compared',
    ['the reference is the forward-column recursion in 80-bit precision, with '
     'derivatives from the order raising/lowering identity',
     'derivatives are judged away from the poles only (the code replaces '
     'sin(theta)=0 by machine epsilon)'])

METHODS = ('holmes', 'colombo', 'mohlenkamp')


def angles(c, n, poles=True):
    th = c.rng.uniform(0.0, np.pi, n)
    kind = c.int(0, 4)
    if kind == 1:
        th = np.linspace(0.0, np.pi, n+2)[1:-1]
    elif kind == 2:
        th[0] = np.pi/2
    elif kind == 3:
        th[0] = 10**c.rng.uniform(-4, -1)
        th[-1] = np.pi - 10**c.rng.uniform(-4, -1)
    if poles and kind == 4:
        th[0], th[-1] = 0.0, np.pi
    return th


def compare(c, L, M, th, P, dP, key, eps=1.0):
    R, dR = ref.plm(L, th, M)
    R, dR = R.astype(float), dR.astype(float)
    scale = np.sqrt(2.0*np.arange(L+1)+1)[:, None, None]
    u = np.maximum(np.sin(th), 1e-300)
    # representing x=cos(theta) costs eps/sin(theta) in theta
    tol = eps*(1e-12 + 4e-16*(1+L)**1.5/np.maximum(u, 1e-6))
    c.eq(P.shape, R.shape, key+'-shape')
    err = np.abs(P - R)/scale
    ok = err <= tol
    c.ok(ok.all(), key, f'L={L} M={M}: max scaled error {mx(err):.3g}',
        at=np.argwhere(~ok)[:1].tolist())
    if dP is not None:
        inner = np.sin(th) > 1e-5
        c.eq(dP.shape, R.shape, key+'-dshape')
        tol = eps*(1e-12*(1+L)**1.5/u[inner] + 4e-16*(1+L)**2.5/u[inner]**2)
        err = np.abs(dP - dR)[..., inner]/scale
        c.ok((err <= tol).all(), key+'-derivative',
            f'L={L} M={M}: max scaled error {mx(err):.3g}')


@check.section('associated', quick=90, thorough=700)
def associated(c):
    method = c.cycle(*METHODS)
    small = c.index < 18
    L = c.index//3 if small else (c.int(2, 70) if c.chance(0.8)
        else c.int(71, 150 if c.quick else 240))
    if method != 'holmes':
        L = min(L, 150)
    M = L if c.chance(0.5) else c.int(0, L)
    th = angles(c, c.int(1, 9) if L < 100 else 4)
    x = np.cos(th)
    th = np.arccos(x)
    c.note(method=method, L=L, M=M, n=len(x))
    name = c.pick(method, method.upper(), method.capitalize())
    kw = {} if (M == L and c.chance(0.5)) else {'MMAX': M}
    if c.chance(0.5):
        P, dP = g.associated_legendre(L, x, method=name, **kw)
    else:
        P, dP = getattr(g, f'plm_{method}')(L, x, **kw)
    compare(c, L, M, th, P, dP, method)


@check.section('default-method', quick=10, thorough=60)
def default(c):
    L = c.int(1, 60)
    x = np.cos(angles(c, 5))
    c.note(L=L)
    P, dP = g.associated_legendre(L, x)
    compare(c, L, L, np.arccos(x), P, dP, 'default')
    c.raises(ValueError, 'unknown-method', g.associated_legendre, L, x,
        method='nosuchmethod')


@check.section('single-precision', quick=12, thorough=60)
def single(c):
    method = c.cycle(*METHODS)
    L = c.int(2, 40)
    x = np.cos(c.rng.uniform(0.2, np.pi-0.2, 4)).astype(np.float32)
    c.note(method=method, L=L)
    P, dP = g.associated_legendre(L, x, method=method, astype=np.float32)
    R, _ = ref.plm(L, np.arccos(x.astype(float)))
    c.ok(np.all(np.isfinite(P)), 'finite')
    c.ok(np.abs(P - R.astype(float)).max() < 2e-4*np.sqrt(2*L+1)*(1+L/10),
        'single-'+method)


@check.section('high-degree', quick=2, thorough=12)
def high(c):
    L = c.int(300, 360) if c.quick else c.int(300, 700)
    x = np.cos(np.array([c.rng.uniform(0.05, 0.4), c.rng.uniform(1, 2),
        c.rng.uniform(2.7, 3.1)]))
    c.note(L=L, x=x)
    P, dP = g.plm_holmes(L, x)
    compare(c, L, L, np.arccos(x), P, dP, 'holmes-high', eps=10)
    # addition theorem: sum over orders of P_lm^2 is 2l+1
    s = np.sum(P**2, axis=1)
    c.close(s, np.broadcast_to((2*np.arange(L+1)+1.0)[:, None], s.shape),
        'addition-theorem', rtol=1e-8)


@check.section('orthonormal', quick=6, thorough=30)
def ortho(c):
    method = c.cycle(*METHODS)
    L = c.int(3, 40)
    x, w = np.polynomial.legendre.leggauss(L+2)
    P, _ = g.associated_legendre(L, x, method=method)
    m = c.int(0, L)
    c.note(method=method, L=L, m=m)
    G = np.einsum('ik,jk,k->ij', P[m:, m], P[m:, m], w)
    c.close(G, np.eye(L-m+1)*(2.0 if m == 0 else 4.0), 'orthogonality',
        rtol=1e-10, atol=1e-10)


@check.section('single-degree', quick=60, thorough=600)
def degree(c):
    norm = c.chance(0.7)
    l = c.index if c.index < 8 else (c.int(0, 60) if c.chance(.6)
        else c.int(60, 320))
    if not norm:
        l = min(l, 75)
    th = angles(c, c.int(1, 8))
    if c.chance(0.2):
        th = np.append(th, [0.0, np.pi])
    x = np.cos(th)
    th = np.arccos(x)
    c.note(l=l, norm=norm, n=len(x))
    got = g.legendre(l, x, NORMALIZE=norm)
    R, _ = ref.plm(l, th)
    R = R[l].astype(float)
    c.eq(got.shape, R.shape, 'shape')
    # distance of x from the pole limits what cos(theta) can represent
    u = np.maximum(np.sin(th), 1e-7)
    if norm:
        tol = (1e-11 + 4e-15*(1+l)**1.5/u)*np.sqrt(2*l+1)
        c.ok((np.abs(got-R) <= tol).all(), 'normalized',
            f'l={l}: max error {mx(got-R):.3g}')
    else:
        for m in range(l+1):
            n = math.sqrt((2-(m == 0))*(2*l+1)*math.exp(
                math.lgamma(l-m+1)-math.lgamma(l+m+1)))
            want = (-1)**m*R[m]/n
            tol = (1e-10 + 4e-15*(1+l)**1.5/u)*np.sqrt(2*l+1)/n
            c.ok((np.abs(got[m]-want) <= tol).all(), 'unnormalized',
                f'l={l} m={m}: {got[m]} expected {want}')


@check.section('zonal', quick=40, thorough=300)
def zonal(c):
    L = c.index if c.index < 6 else c.int(0, 200)
    th = angles(c, c.int(1, 7))
    x = np.cos(th)
    th = np.arccos(x)
    c.note(L=L, n=len(x))
    P, dP = g.legendre_polynomials(L, x)
    R, dR = ref.plm(L, th, 0)
    R, dR = R[:, 0].astype(float), dR[:, 0].astype(float)
    s = np.sqrt(2*np.arange(L+1)+1.0)[:, None]
    u = np.maximum(np.sin(th), 1e-7)
    c.eq(P.shape, R.shape, 'shape')
    c.ok((np.abs(P-R) <= s*(1e-12+4e-16*(1+L)**1.5/u)).all(), 'value',
        f'L={L}: {mx(P-R):.3g}')
    inn = np.sin(th) > 1e-5
    err = (np.abs(dP-dR)/s)[:, inn]
    tol = 1e-12*(1+L)**1.5/u[inn] + 4e-16*(1+L)**2.5/u[inn]**2
    c.ok((err <= tol).all(), 'derivative', f'L={L}: {mx(err):.3g}')


@check.section('fourier-series', quick=24, thorough=80)
def fourier(c):
    L = c.index+1 if c.index < 10 else c.int(4, 60 if c.quick else 90)
    M = L if c.chance(0.6) else c.int(0, L)
    th = c.rng.uniform(0, np.pi, 5)
    c.note(L=L, M=M)
    F = g.fourier_legendre(L, M)
    c.eq(F.shape, (L+1, L+1, L+1), 'shape')
    R, dR = ref.plm(L, th)
    j = np.arange(L+1)
    C, S = np.cos(np.outer(j, th)), np.sin(np.outer(j, th))
    for m in range(M+1):
        got = F[:, m] @ (C if m % 2 == 0 else S)
        c.close(got[m:], R[m:, m].astype(float), 'series', rtol=1e-9,
            atol=1e-9*np.sqrt(2*L+1))
    # derivative coefficients
    V, W = g.legendre_gradient(L, M)
    # one overall sign convention, fixed by the degree 1 zonal term
    sign = np.sign(np.sum((V[1, 0] @ S)*dR[1, 0].astype(float)))
    for m in range(M+1):
        B = S if m % 2 == 0 else C
        l = np.arange(max(m, 1), L+1)
        n = np.sqrt(l*(l+1.0))[:, None]
        got = n*(V[l, m] @ B)
        c.close(got*sign, dR[l, m].astype(float), 'meridional-series',
            rtol=1e-8, atol=1e-8*L*np.sqrt(2*L+1))
        got = n*(W[l, m] @ B)*np.sin(th)
        c.close(got, m*R[l, m].astype(float), 'zonal-series',
            rtol=1e-8, atol=1e-8*L*np.sqrt(2*L+1))
