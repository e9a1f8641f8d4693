"""Independent reference computations (no gravity_toolkit code)."""
import numpy as np

LD = np.longdouble


def plm(lmax, theta, mmax=None):
    """fully-normalised associated Legendre functions of the colatitude,
    (geodesy 4-pi convention, no Condon-Shortley phase) and d/dtheta,
    by the forward column recursion in extended precision"""
    mmax = lmax if mmax is None else mmax
    th = np.atleast_1d(theta).astype(LD)
    t, u = np.cos(th), np.sin(th)
    n = len(th)
    P = np.zeros((lmax+2, lmax+2, n), dtype=LD)
    P[0, 0] = 1
    for m in range(1, lmax+2):
        k = LD(3) if m == 1 else LD(2*m+1)/LD(2*m)
        P[m, m] = np.sqrt(k)*u*P[m-1, m-1]
    for m in range(0, lmax+1):
        P[m+1, m] = np.sqrt(LD(2*m+3))*t*P[m, m]
        for l in range(m+2, lmax+2):
            a = np.sqrt(LD((2*l-1)*(2*l+1))/LD((l-m)*(l+m)))
            b = np.sqrt(LD((2*l+1)*(l+m-1)*(l-m-1))/LD((2*l-3)*(l+m)*(l-m)))
            P[l, m] = a*t*P[l-1, m] - b*P[l-2, m]
    # derivative by the order-raising/lowering identity (no division by sin)
    dP = np.zeros((lmax+1, lmax+1, n), dtype=LD)
    for l in range(0, lmax+1):
        for m in range(0, l+1):
            if m == 0:
                if l > 0:
                    dP[l, 0] = -np.sqrt(LD(l*(l+1))/2)*P[l, 1]
            else:
                lo = np.sqrt(LD((l+m)*(l-m+1))*(2 if m == 1 else 1))*P[l, m-1]
                hi = np.sqrt(LD((l-m)*(l+m+1)))*P[l, m+1] if m < l else 0
                dP[l, m] = (lo - hi)/2
    return P[:lmax+1, :mmax+1].astype(LD), dP[:, :mmax+1]


def synth(clm, slm, lon, lat, lmin=0, lmax=None, mmax=None):
    """field on the grid (lon, lat) by direct summation"""
    clm, slm = np.asarray(clm, LD), np.asarray(slm, LD)
    L = clm.shape[0]-1 if lmax is None else lmax
    M = min(clm.shape[1]-1, L) if mmax is None else mmax
    P, _ = plm(L, np.radians(90.0-np.asarray(lat, float)))
    phi = np.radians(np.asarray(lon, float)).astype(LD)
    out = np.zeros((len(phi), P.shape[2]), dtype=LD)
    for m in range(0, M+1):
        l = np.arange(max(lmin, m), L+1)
        if not len(l):
            continue
        a = (clm[l, m][:, None]*P[l, m]).sum(axis=0)
        b = (slm[l, m][:, None]*P[l, m]).sum(axis=0)
        out += np.cos(m*phi)[:, None]*a + np.sin(m*phi)[:, None]*b
    return out.astype(float)


def synth_points(clm, slm, lon, lat, lmax=None):
    clm, slm = np.asarray(clm, LD), np.asarray(slm, LD)
    L = clm.shape[0]-1 if lmax is None else lmax
    P, _ = plm(L, np.radians(90.0-np.asarray(lat, float)))
    phi = np.radians(np.asarray(lon, float)).astype(LD)
    out = np.zeros(len(phi), dtype=LD)
    for m in range(0, min(L, clm.shape[1]-1)+1):
        l = np.arange(m, L+1)
        out += np.cos(m*phi)*(clm[l, m][:, None]*P[l, m]).sum(axis=0)
        out += np.sin(m*phi)*(slm[l, m][:, None]*P[l, m]).sum(axis=0)
    return out.astype(float)


def random_coeffs(rng, lmax, mmax=None, decay=1.0, lmin=0, scale=1.0):
    """physically shaped Stokes coefficients: zero where m > l and sine m=0"""
    mmax = lmax if mmax is None else mmax
    l = np.arange(lmax+1)[:, None]
    m = np.arange(mmax+1)[None, :]
    ok = (m <= l) & (l >= lmin)
    amp = scale/(1.0+l)**decay
    clm = np.where(ok, rng.standard_normal((lmax+1, mmax+1))*amp, 0.0)
    slm = np.where(ok & (m > 0), rng.standard_normal((lmax+1, mmax+1))*amp, 0.0)
    return clm, slm


def love(rng, lmax, trivial=False):
    """plausible load Love numbers hl, kl, ll"""
    l = np.arange(lmax+1, dtype=float)
    if trivial:
        z = np.zeros(lmax+1)
        return z, z.copy(), z.copy()
    a, b, c = rng.uniform(0.5, 1.5, 3)
    hl = -a*(l/(l+1.0)) - 0.3*np.log1p(l)
    kl = -b*0.3*np.exp(-l/25.0) - 0.02
    ll = c*0.1*np.exp(-l/40.0)
    kl[0] = 0.0
    hl[0] = -0.13
    if lmax >= 1:
        kl[1] = 0.021
    return hl, kl, ll

# -- WGS84-based constants and degree-dependent factors (CGS)
A_AXIS, FLAT = 6.378137e8, 1.0/298.257223563
GM = 3.986004418e20 - 3.5e14
GCONST = 6.6743e-8
RAD_E = A_AXIS*(1.0 - FLAT)**(1.0/3.0)
RHO_E = 0.75*GM/(GCONST*np.pi*RAD_E**3)
G_WMO = 980.665
OMEGA = 7.292115e-5


def factors_harmonic(lmax, hl, kl, ll, elastic=True, ellipsoidal=False,
        a=A_AXIS, f=FLAT):
    """degree-dependent factors from fully-normalised to output units"""
    l = np.arange(lmax+1.0)
    R = a*(1.0-f)**(1.0/3.0)
    rho = 0.75*GM/(GCONST*np.pi*R**3)
    fr = 1.0 + (kl[:lmax+1] if elastic else 0.0)*np.ones(lmax+1)
    if ellipsoidal:
        fr = fr/(1.0-f)
    mass = rho*R/3.0*(2*l+1)/fr
    return {'norm': np.ones(lmax+1), 'cmwe': mass, 'mmwe': 10*mass,
        'mmGH': np.full(lmax+1, 10*R), 'mmCU': 10*R*hl[:lmax+1]/fr,
        'mmCH': 10*R*ll[:lmax+1]/fr, 'cmVCU': R*(2*l+1)/2,
        'mVCU': R*(2*l+1)/200, 'microGal': 1e6*GM*(l+1)/R**2,
        'mbar': G_WMO*mass/1e3, 'Pa': G_WMO*mass/10}


def factors_spatial(lmax, hl, kl, ll, elastic=True, a=A_AXIS, f=FLAT):
    """factors from an integral over the unit sphere to normalised units"""
    l = np.arange(lmax+1.0)
    R = a*(1.0-f)**(1.0/3.0)
    rho = 0.75*GM/(GCONST*np.pi*R**3)
    fr = 1.0 + (kl[:lmax+1] if elastic else 0.0)*np.ones(lmax+1)
    cm = 3*fr/(2*l+1)/(4*np.pi*R*rho)
    return {'norm': np.ones(lmax+1), 'cmwe': cm, 'mmwe': cm/10,
        'mmGH': np.full(lmax+1, 1/(40*np.pi*R)),
        'microGal': R**2/(4e6*np.pi*GM)/(l+1)}


BYCODE = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU']


def gauss(hw, lmax, R=6371.0):
    """Jekeli's Gaussian averaging weights (unit at degree zero) by Gauss-
    Legendre quadrature of the smoothing function"""
    if hw <= 0:
        return np.ones(lmax+1)
    b = np.log(2.0)/(1.0-np.cos(hw/R))
    # integrate exp(-b(1-x)) P_l(x) over x=1-y/b, y in [0, min(2b, 60)]
    top = min(2*b, 80.0)
    n = 300
    x, w = np.polynomial.legendre.leggauss(n)
    seg = 8
    W = np.zeros(lmax+1, LD)
    edges = np.linspace(0, top, seg+1)
    for k in range(seg):
        y = ((edges[k+1]-edges[k])*(x+1)/2+edges[k]).astype(LD)
        wt = w.astype(LD)*(edges[k+1]-edges[k])/2*np.exp(-y)
        t = 1 - y/LD(b)
        p0, p1 = np.ones_like(t), t
        W[0] += np.sum(wt)
        if lmax > 0:
            W[1] += np.sum(wt*t)
        for l in range(2, lmax+1):
            p0, p1 = p1, ((2*l-1)*t*p1-(l-1)*p0)/l
            W[l] += np.sum(wt*p1)
    return (W/W[0]).astype(float)
