"""G01: conversions and arithmetic of geocenter objects."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check

check = Check('G01', 'each case builds a geocenter series and an independent '
    'model of it (arrays), applies a random sequence of conversions and '
    'arithmetic to both and compares all fields after every step')

R0 = 1e3*6378137.0*(1-1/298.257223563)**(1/3)
F = ('C10', 'C11', 'S11')
XYZ = ('Z', 'X', 'Y')
CM = 5.517*6.371e8


def close(c, a, b, key, tol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    s = np.max(np.abs(b)) if b.size else 0
    c.close(a, b, key, rtol=tol, atol=1e-300+1e-15*s)


class Model:
    """arrays of coefficients, errors and coordinates"""
    def __init__(self, c, n=None, errors=None, radius='?'):
        self.n = n = c.int(1, 20) if n is None else n
        self.C = c.rng.standard_normal((3, n))*1e-9
        self.E = np.abs(c.rng.standard_normal((3, n)))*1e-11 if (
            c.chance(.6) if errors is None else errors) else None
        self.X = self.XE = None
        self.R = c.pick(None, None, 6.371e9, 6.378136e9) if radius == '?' else radius
        self.months = c.int(4, 100)+np.cumsum(c.rng.integers(1, 3, n))
        self.time = 2002+(self.months-.5)/12

    @property
    def radius(self):
        return self.R or R0

    def real(self, c):
        G = g.geocenter() if self.R is None else g.geocenter(radius=self.R)
        d = dict(zip(F, self.C.copy()), time=self.time.copy(),
            month=self.months.copy())
        if self.E is not None:
            d.update({'e'+k: v.copy() for k, v in zip(F, self.E)})
        src = {k: v.copy() for k, v in d.items()}
        G.from_dict(d)
        # the object holds copies of the arrays it was given
        for k in d:
            d[k][:] = -1
        del src
        return G

    def check(self, c, G, what, errors=True):
        for k, f in enumerate(F):
            close(c, G.get(f), self.C[k], what+'-'+f)
            if self.E is not None and errors:
                close(c, G.get('e'+f), self.E[k], what+'-e'+f)
        c.close(G.radius, self.radius, what+'-radius', rtol=1e-14)
        if self.X is not None:
            for k, f in enumerate(XYZ):
                close(c, G.get(f), self.X[k], what+'-'+f)
                if self.XE is not None and errors:
                    close(c, G.get(f+'_sigma'), self.XE[k], what+'-'+f+'_sigma')
        if G.time is not None:
            c.close(G.time, self.time, what+'-time', rtol=0)
            c.close(G.month, self.months, what+'-month', rtol=0)


def kl(c):
    k = c.pick(None, 0.021, -0.28, float(c.rng.uniform(-.5, .5)))
    return (0.0, {}) if k is None else (k, dict(kl=k))


@check.section('sequence', quick=150, thorough=3000)
def sequence(c):
    """conversions and in-place arithmetic in any order"""
    m = Model(c)
    G = m.real(c)
    m.check(c, G, 'made')
    ops = []
    for _ in range(c.int(1, 8)):
        op = c.pick('cartesian', 'from-cartesian', 'cmwe', 'mmwe', 'from-cmwe',
            'from-mmwe', 'add', 'subtract', 'multiply', 'divide', 'anomaly')
        ops.append(op)
        s = max(np.abs(m.C).max(), 1e-30)
        if op == 'cartesian':
            k, kw = kl(c)
            r = G.to_cartesian(**kw)
            f = m.radius*np.sqrt(3)/(1+k)
            m.X = m.C*f
            if m.E is not None:
                m.XE = m.E*f
        elif op == 'from-cartesian':
            if m.X is None:
                continue
            k, kw = kl(c)
            r = G.from_cartesian(**kw)
            f = m.radius*np.sqrt(3)/(1+k)
            m.C = m.X/f
            if m.XE is not None:
                m.E = m.XE/f
        elif op in ('cmwe', 'mmwe', 'from-cmwe', 'from-mmwe'):
            k, kw = kl(c)
            f = CM/(1+k)*(10 if 'mm' in op else 1)
            r = getattr(G, op.replace('-', '_') if '-' in op else 'to_'+op)(**kw)
            f = 1/f if '-' in op else f
            m.C = m.C*f
            if m.E is not None:
                m.E = m.E*f
        elif op == 'anomaly':
            some = c.chance(.4)
            i = np.sort(c.rng.choice(m.n, c.int(1, m.n), replace=False)) \
                if some else np.arange(m.n)
            kw = dict(indices=i) if some else {}
            apply = c.chance(.7)
            a = G.mean(apply=apply, **kw)
            v = m.C[:, i].mean(axis=1)
            tol = 1e-14*np.abs(m.C).max()
            for k, f in enumerate(F):
                c.close(a.get(f), v[k], 'mean-'+f, rtol=1e-12, atol=tol)
            c.close(a.time, m.time[i].mean(), 'mean-time', rtol=1e-14)
            c.close(a.month, m.months[i].mean(), 'mean-month', rtol=1e-14)
            if apply:
                for k, f in enumerate(F):
                    c.close(G.get(f), m.C[k]-v[k], 'anomaly', rtol=1e-9,
                        atol=10*tol)
                m.C = np.array([np.array(G.get(f)) for f in F])
            r = G
        else:
            o = Model(c, n=m.n, radius=m.R)
            o.C = o.C/1e-9*s if op in ('add', 'subtract') else \
                o.C/1e-9+np.sign(o.C)*.1
            if op in ('multiply', 'divide') and (s > 1e200 or s < 1e-200):
                continue
            O = o.real(c)
            r = getattr(G, op)(O)
            o.check(c, O, 'operand')
            m.C = dict(add=np.add, subtract=np.subtract, multiply=np.multiply,
                divide=np.divide)[op](m.C, o.C)
        c.ok(r is G, 'chains')
        m.check(c, G, op)
        m.C = np.array([np.array(G.get(f), dtype=float) for f in F])
    c.note(n=m.n, ops=ops, radius=m.R, errors=m.E is not None)


@check.section('copies', quick=60, thorough=1000)
def copies(c):
    """scaled, raised, copied and iterated objects leave the source alone"""
    m = Model(c)
    G = m.real(c)
    op = c.cycle('scale', 'power', 'copy', 'iterate', 'dict', 'twice')
    c.note(op=op, n=m.n, radius=m.R)
    if op == 'scale':
        f = c.pick(2.0, -1.5, 0.0, c.rng.standard_normal(m.n))
        r = G.scale(f)
        for k, n in enumerate(F):
            close(c, r.get(n), m.C[k]*f, 'scale-'+n)
        c.close(r.month, m.months, 'scale-month', rtol=0)
        c.close(r.time, m.time, 'scale-time', rtol=0)
    elif op == 'power':
        p = c.pick(2.0, 1.0, 0.0, 3)
        r = G.power(p)
        for k, n in enumerate(F):
            close(c, r.get(n), m.C[k]**p, 'power-'+n)
        c.close(r.month, m.months, 'power-month', rtol=0)
        c.close(r.time, m.time, 'power-time', rtol=0)
    elif op == 'copy':
        r = G.copy()
        m.check(c, r, 'copy')
        r.to_mmwe()
        r.C10[:] = 7
        r.time[:] = 0
    elif op in ('iterate', 'twice'):
        for _ in range(1+(op == 'twice')):
            seen = 0
            for i, t in enumerate(G):
                for k, n in enumerate(F):
                    c.eq(float(t.get(n)), float(m.C[k, i]), 'item-'+n)
                c.eq(float(t.time), float(m.time[i]), 'item-time')
                c.eq(int(t.month), int(m.months[i]), 'item-month')
                c.close(t.radius, m.radius, 'item-radius', rtol=1e-14)
                x = t.to_cartesian()
                close(c, x.Z, m.C[0, i]*m.radius*np.sqrt(3), 'item-Z')
                seen += 1
            c.eq(seen, m.n, 'items')
        r = t
    else:
        d = G.to_dict()
        for k, n in enumerate(F):
            close(c, d[n], m.C[k], 'dict-'+n)
            if m.E is not None:
                close(c, d['e'+n], m.E[k], 'dict-e'+n)
        c.close(d['time'], m.time, 'dict-time', rtol=0)
        c.close(d['month'], m.months, 'dict-month', rtol=0)
        r = g.geocenter(radius=m.radius).from_dict(d)
        m.check(c, r, 'from-dict')
        d['C10'][:] = 9
        r.C11[:] = 5
    c.close(r.radius, m.radius, 'radius', rtol=1e-14)
    m.check(c, G, 'source')
    c.eq(len(G), m.n, 'length')
    s = str(G).splitlines()
    c.eq([s[1].split(), s[2].split()], [['start_month:', str(m.months.min())],
        ['end_month:', str(m.months.max())]], 'text')
    for n in F:
        c.ok(G[n] is getattr(G, n), 'item-access')
    c.eq(list(G.fields), list(F), 'fields')


@check.section('matrices', quick=60, thorough=1000)
def matrices(c):
    """degree one of harmonics and matrices of coefficients"""
    m = Model(c, errors=False)
    n = m.n
    L = c.int(1, 6)
    M = c.int(1, L)
    clm = c.rng.standard_normal((L+1, M+1, n))
    slm = c.rng.standard_normal((L+1, M+1, n))
    kind = c.cycle('harmonics', 'harmonics-month', 'matrix', 'to-matrix')
    c.note(kind=kind, n=n, L=L, M=M)
    C = np.array([clm[1, 0], clm[1, 1], slm[1, 1]])
    if kind == 'harmonics':
        h = g.harmonics(lmax=L, mmax=M)
        h.clm, h.slm, h.time, h.month = clm.copy(), slm.copy(), m.time.copy(), m.months.copy()
        r = g.geocenter().from_harmonics(h)
        for k, f in enumerate(F):
            c.close(r.get(f), C[k], f, rtol=0)
        c.close(r.time, m.time, 'time', rtol=0)
        c.close(r.month, m.months, 'month', rtol=0)
        r.C10[:] = 0
        r.S11[:] = 0
        c.ok(np.array_equal(h.clm, clm) and np.array_equal(h.slm, slm), 'pure')
    elif kind == 'harmonics-month':
        h = g.harmonics(lmax=L, mmax=M)
        h.clm, h.slm = clm[:, :, 0].copy(), slm[:, :, 0].copy()
        h.time, h.month = m.time[0], m.months[0]
        r = g.geocenter().from_harmonics(h)
        for k, f in enumerate(F):
            c.close(r.get(f), C[k, 0], f, rtol=0)
        c.close(r.month, m.months[0], 'month', rtol=0)
    elif kind == 'matrix':
        flat = c.chance(.3)
        a, b = (clm[:, :, 0], slm[:, :, 0]) if flat else (clm, slm)
        r = g.geocenter().from_matrix(a, b)
        for k, f in enumerate(F):
            c.close(r.get(f), C[k][:1] if flat else C[k], f, rtol=0)
        d = r.to_matrix()
        c.close(d['clm'][1, 0], C[0][:1] if flat else C[0], 'round-trip', rtol=0)
    else:
        G = m.real(c)
        d = G.to_matrix()
        want = np.zeros((2, 2, 2, n))
        want[0, 1, 0], want[0, 1, 1], want[1, 1, 1] = m.C
        c.close(d['clm'], want[0], 'clm', rtol=0)
        c.close(d['slm'], want[1], 'slm', rtol=0)
        r = g.geocenter().from_matrix(d['clm'], d['slm'])
        for k, f in enumerate(F):
            c.close(r.get(f), m.C[k], 'inverse-'+f, rtol=0)
        m.check(c, G, 'source')


@check.section('physics', quick=60, thorough=800)
def physics(c):
    """units and directions of degree one, from the harmonic series"""
    m = Model(c, n=1, errors=False)
    G = m.real(c)
    k, kw = kl(c)
    # the mass load of degree one in cm water: rho_e*a*(2l+1)/3/(1+kl)
    lmax = c.int(1, 4)
    h = g.harmonics(lmax=lmax, mmax=lmax)
    h.clm = np.zeros((lmax+1, lmax+1))
    h.slm = np.zeros((lmax+1, lmax+1))
    h.clm[1, 0], h.clm[1, 1], h.slm[1, 1] = m.C[:, 0]
    z = np.zeros(lmax+1)
    kk = z.copy()
    kk[1] = k
    u = g.units(lmax=lmax).harmonic(z, kk, z)
    want = h.convolve(u.cmwe)
    G.to_cmwe(**kw)
    c.note(kl=k, lmax=lmax)
    for f, w in zip(F, (want.clm[1, 0], want.clm[1, 1], want.slm[1, 1])):
        c.close(np.atleast_1d(G.get(f))[0], w, 'cmwe-'+f, rtol=2e-3)
    # a mass displaced along an axis moves the center along this axis
    ax = c.cycle('X', 'Y', 'Z')
    d = float(c.rng.uniform(.1, 5))
    H = g.geocenter(radius=m.radius, **{x: np.array([d if x == ax else 0.0])
        for x in 'XYZ'}).from_cartesian()
    lat, lon = dict(X=(0, 0), Y=(0, 90), Z=(90, 0))[ax]
    p = np.radians(lat), np.radians(lon)
    pot = np.sqrt(3)*(H.C10[0]*np.sin(p[0]) + np.cos(p[0])*(
        H.C11[0]*np.cos(p[1])+H.S11[0]*np.sin(p[1])))
    c.close(pot, d/m.radius, 'axis', rtol=1e-9)
    p = np.radians(c.rng.uniform(-90, 90)), np.radians(c.rng.uniform(0, 360))
    G = g.geocenter(radius=m.radius, **{x: c.rng.standard_normal(2) for x in
        'XYZ'})
    xyz = np.array([G.X, G.Y, G.Z])
    G.from_cartesian()
    e = np.array([np.cos(p[0])*np.cos(p[1]), np.cos(p[0])*np.sin(p[1]),
        np.sin(p[0])])
    pot = np.sqrt(3)*(G.C10*np.sin(p[0]) + np.cos(p[0])*(
        G.C11*np.cos(p[1])+G.S11*np.sin(p[1])))
    c.close(pot, e @ xyz/m.radius, 'direction', rtol=1e-8, atol=1e-18)
