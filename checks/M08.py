"""M08: correlated-error (destriping) filter."""
import numpy as np
from scipy.signal import savgol_filter
import gravity_toolkit as g
from rv.core import Check

check = Check('M08', 'each case draws coefficients, sizes and window options '
    'and compares the filtered coefficients with an independent running '
    'quadratic least-squares fit over same-parity degrees of each order')


def expect(x, L, M, rounded, narrow):
    out = x.copy()
    for m in range(5, M+1):
        w = 15*np.exp(-m/10)
        n = max(2, int(np.rint(w)) if rounded else int(np.floor(w)))
        for par in (0, 1):
            l = np.arange(m, L+1)
            l = l[l % 2 == par]
            if not len(l):
                continue
            if len(l) < 2*n+1:
                if not narrow:
                    out[l, m] = 0.0
                continue
            y = x[l, m]
            out[l, m] = y - savgol_filter(y, 2*n+1, 2, mode='interp')
    return out


@check.section('filter', quick=40, thorough=250)
def filt(c):
    L = c.int(6, 60) if c.quick else c.int(2, 110)
    M = L if c.chance(.6) else c.int(0, L)
    clm, slm = (c.rng.standard_normal((L+1, M+1))*1e-10 for _ in range(2))
    tri = np.arange(M+1)[None, :] > np.arange(L+1)[:, None]
    clm[tri], slm[tri] = 0, 0
    kw, rounded, narrow = {}, True, False
    if c.chance(.5):
        rounded = kw['ROUND'] = c.pick(True, False)
    if c.chance(.5):
        narrow = kw['NARROW'] = c.pick(True, False)
    if M != L or c.chance(.5):
        kw['MMAX'] = M
    c.note(L=L, M=M, kw=kw)
    a, b = clm.copy(), slm.copy()
    W = g.destripe_harmonics(clm, slm, LMAX=L, **kw)
    c.ok(np.array_equal(a, clm) and np.array_equal(b, slm), 'pure')
    c.near(W['clm'], expect(clm, L, M, rounded, narrow), 'clm', 1e-9)
    c.near(W['slm'], expect(slm, L, M, rounded, narrow), 'slm', 1e-9)
    c.ok(np.array_equal(W['clm'][:, :5], clm[:, :5]), 'low-orders-unchanged')
    # the object method gives the same
    h = g.harmonics(lmax=L, mmax=M)
    h.clm, h.slm, h.l, h.m = clm, slm, np.arange(L+1), np.arange(M+1)
    d = h.destripe(**{k: v for k, v in kw.items() if k != 'MMAX'})
    c.near(d.clm, W['clm'], 'method', 1e-12)
    c.near(d.slm, W['slm'], 'method-slm', 1e-12)
    c.ok(np.array_equal(h.clm, a), 'method-pure')


@check.section('truncated', quick=12, thorough=80)
def truncated(c):
    """degrees and orders beyond LMAX/MMAX are left alone"""
    L0 = c.int(20, 50)
    L, M = c.int(12, L0), c.int(5, 12)
    clm, slm = (c.rng.standard_normal((L0+1, L0+1)) for _ in range(2))
    tri = np.triu(np.ones((L0+1, L0+1), bool), 1)
    clm[tri], slm[tri] = 0, 0
    c.note(L0=L0, L=L, M=M)
    W = g.destripe_harmonics(clm, slm, LMAX=L, MMAX=M)
    w = expect(clm, L, M, True, False)
    c.near(W['clm'], w, 'clm', 1e-9)
    c.ok(np.array_equal(W['clm'][L+1:], clm[L+1:]), 'beyond-degree')
    c.ok(np.array_equal(W['clm'][:, M+1:], clm[:, M+1:]), 'beyond-order')


@check.section('physics', quick=12, thorough=80)
def physics(c):
    """linear; annihilates parity-wise quadratics in degree; idempotent there"""
    L = c.int(20, 60)
    l = np.arange(L+1.0)[:, None]*np.ones((1, L+1))
    par = (l % 2)
    q = [c.rng.normal(size=(1, L+1)) for _ in range(6)]
    s = np.where(par == 0, q[0]+q[1]*l+q[2]*l*l, q[3]+q[4]*l+q[5]*l*l)
    tri = np.triu(np.ones((L+1, L+1), bool), 1)
    s[tri] = 0
    c.note(L=L)
    W = g.destripe_harmonics(s, s, LMAX=L)
    c.close(W['clm'][:, 5:], 0*s[:, 5:], 'stripes-removed', rtol=0,
        atol=1e-8*np.abs(s).max())
    x = c.rng.standard_normal((L+1, L+1))
    x[tri] = 0
    k = c.rng.normal()
    A = g.destripe_harmonics(x, s, LMAX=L)
    B = g.destripe_harmonics(s, x, LMAX=L)
    C = g.destripe_harmonics(x+k*s, x, LMAX=L)
    c.near(C['clm'], A['clm']+k*B['clm'], 'linear', 1e-8)
    c.near(B['slm'], A['clm'], 'cosine-sine-alike', 1e-12)
    c.raises(ValueError, 'vector-input', g.destripe_harmonics,
        x[:1], x[:1], LMAX=L)
