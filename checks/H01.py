"""H01: arithmetic of harmonics objects."""
import numpy as np
import gravity_toolkit as g
from checks import T02
from rv.core import Check
from rv.objs import harm, snap, same, tri

check = Check('H01', 'each case draws one or two harmonics objects (sizes, '
    'orders, single or time series, dated or not) and compares an operation '
    'with the same operation on plain arrays; the operand is snapshotted')

OPS = {'add': np.add, 'subtract': np.subtract, 'multiply': np.multiply,
    'divide': np.divide}


@check.section('binary', quick=120, thorough=1200)
def binary(c):
    op = c.cycle('add', 'subtract', 'multiply', 'divide')
    a = harm(c)
    mode = c.pick('same', 'smaller', 'larger', 'any')
    nt = a.clm.shape[2] if a.clm.ndim == 3 else None
    nt2 = nt if c.chance(.6) else None
    if mode == 'same':
        b = harm(c, a.lmax, a.mmax, nt=nt2)
    else:
        b = harm(c, nt=nt2)
    c.note(op=op, a=a.clm.shape, b=b.clm.shape)
    A, S = a.clm.copy(), a.slm.copy()
    keep = snap(b)
    r = getattr(a, op)(b)
    c.ok(same(keep, snap(b)), 'operand-untouched')
    c.ok(r is a, 'in-place')
    l, m = min(a.lmax, b.lmax)+1, min(a.mmax, b.mmax)+1
    B, T = b.clm, b.slm
    if A.ndim == 3 and B.ndim == 2:
        B, T = B[:, :, None], T[:, :, None]
    t = tri(l-1, m-1)
    ts = t & (np.arange(m)[None, :] > 0)
    A[:l, :m][t] = OPS[op](A[:l, :m], B[:l, :m])[t]
    S[:l, :m][ts] = OPS[op](S[:l, :m], T[:l, :m])[ts]
    c.close(a.clm, A, f'{op}-clm', rtol=1e-14)
    c.close(a.slm, S, f'{op}-slm', rtol=1e-14)
    c.ok(np.array_equal(a.l, np.arange(a.lmax+1)) and
        np.array_equal(a.m, np.arange(a.mmax+1)), 'dimensions')


@check.section('inverse', quick=40, thorough=400)
def inverse(c):
    """subtraction undoes addition, division undoes multiplication"""
    a = harm(c)
    nt = a.clm.shape[2] if a.clm.ndim == 3 else None
    b = harm(c, a.lmax, a.mmax, nt=nt)
    c.note(a=a.clm.shape)
    x = a.copy().add(b).subtract(b)
    c.close(x.clm, a.clm, 'add-subtract', rtol=0, atol=1e-13)
    c.close(x.slm, a.slm, 'add-subtract-sine', rtol=0, atol=1e-13)
    x = a.copy().multiply(b).divide(b)
    c.close(x.clm, a.clm, 'multiply-divide', rtol=1e-12)
    c.close(x.slm, a.slm, 'multiply-divide-sine', rtol=1e-12)


@check.section('scale', quick=60, thorough=600)
def scale(c):
    a = harm(c)
    keep = snap(a)
    nt = a.clm.shape[2] if a.clm.ndim == 3 else None
    v = float(c.rng.normal()) if c.chance(.5) else \
        c.rng.standard_normal(nt if nt else c.int(1, 5))
    c.note(a=a.clm.shape, var=np.shape(v))
    r = a.scale(v)
    c.ok(same(keep, snap(a)) and r is not a, 'operand-untouched')
    for n in ('clm', 'slm'):
        x = getattr(a, n)
        if np.ndim(v) == 1 and x.ndim == 2:
            x = x[:, :, None]
        c.close(getattr(r, n), x*v, f'scale-{n}', rtol=1e-14)
    c.close(r.time, a.time, 'time', rtol=0)
    c.close(r.month, a.month, 'month', rtol=0)
    p = c.pick(2, 3, 0.5, 1)
    q = a.power(2).power(0.5) if p == 0.5 else a.power(p)
    want = np.abs(a.clm) if p == .5 else a.clm**p
    c.close(q.clm, want, 'power', rtol=1e-12)
    want = np.abs(a.slm) if p == .5 else a.slm**p
    c.close(q.slm, want, 'power-sine', rtol=1e-12)
    c.ok(same(keep, snap(a)), 'operand-untouched-power')


@check.section('convolve', quick=40, thorough=400)
def convolve(c):
    a = harm(c)
    A, S = a.clm.copy(), a.slm.copy()
    w = c.rng.standard_normal(a.lmax+1+c.pick(0, 3))
    c.note(a=a.clm.shape)
    k = w[:a.lmax+1, None] if A.ndim == 2 else w[:a.lmax+1, None, None]
    r = a.convolve(w)
    c.ok(r is a, 'in-place')
    c.close(a.clm, A*k, 'clm', rtol=1e-14)
    c.close(a.slm, S*k, 'slm', rtol=1e-14)


@check.section('mean', quick=50, thorough=500)
def mean(c):
    a = harm(c, nt=c.int(1, 6))
    n = a.clm.shape[2]
    A, S = a.clm.copy(), a.slm.copy()
    kw, idx = {}, np.arange(n)
    if c.chance(.5):
        idx = np.sort(c.rng.permutation(n)[:c.int(1, n)])
        kw['indices'] = idx
    ap = c.chance(.5)
    if ap:
        kw['apply'] = True
    c.note(a=a.clm.shape, idx=idx, apply=ap)
    r = a.mean(**kw)
    mc, ms = A[:, :, idx].mean(axis=2), S[:, :, idx].mean(axis=2)
    c.close(r.clm, mc, 'clm', rtol=1e-12, atol=1e-14)
    c.close(r.slm, ms, 'slm', rtol=1e-12, atol=1e-14)
    c.close(r.time, a.time[idx].mean(), 'time', rtol=1e-12)
    k = 1.0 if ap else 0.0
    c.close(a.clm, A-k*mc[:, :, None], 'anomaly', rtol=1e-12, atol=1e-14)
    c.close(a.slm, S-k*ms[:, :, None], 'anomaly-sine', rtol=1e-12, atol=1e-14)


@check.section('drift', quick=30, thorough=300)
def drift(c):
    a = harm(c, nt=None)
    keep = snap(a)
    n = c.int(1, 6)
    m = 4+np.cumsum(c.rng.integers(1, 9, n))
    t = 2002 + (m-.5)/12
    special = c.chance(.4)
    if special:
        # around the months that are centered in another calendar month
        m = np.arange(c.int(110, 158), c.int(165, 210))
        n = len(m)
        seen, _ = T02.shift(m, [c.pick((118, 119), (120, 121)), (160, 161), (202, 203)])
        t = 2002 + (seen-np.where(np.r_[False, seen[1:] == seen[:-1]], .2, .6))/12
    kw, e = {}, 2003.3
    if c.chance(.5):
        e = kw['epoch'] = float(c.rng.uniform(2000, 2020))
    c.note(a=a.clm.shape, n=n, epoch=e, special=special)
    r = a.drift(t, **kw)
    c.ok(same(keep, snap(a)), 'operand-untouched')
    c.close(r.clm, a.clm[:, :, None]*(t-e), 'clm', rtol=1e-12)
    c.close(r.slm, a.slm[:, :, None]*(t-e), 'slm', rtol=1e-12)
    c.close(r.time, t, 'time', rtol=0)
    c.close(np.atleast_1d(r.month), m, 'month', rtol=0)


@check.section('derived', quick=50, thorough=500)
def derived(c):
    """amplitude and complex form follow the current coefficients"""
    a = harm(c)
    c.note(a=a.clm.shape)
    for step in range(3):
        c.close(a.amplitude, np.sqrt((a.clm**2+a.slm**2).sum(axis=1)),
            'amplitude', rtol=1e-12)
        c.close(a.ilm, a.clm-1j*a.slm, 'complex', rtol=1e-14)
        c.eq((a.shape, a.ndim, a.dtype), (a.clm.shape, a.clm.ndim, a.clm.dtype),
            'shape')
        if step == 0:
            a.convolve(c.rng.standard_normal(a.lmax+1))
        elif step == 1:
            a.truncate(c.int(0, a.lmax))


@check.section('series', quick=30, thorough=200)
def series(c):
    """an operation on a time series equals the operation month by month"""
    a = harm(c, L=c.int(8, 24), nt=c.int(1, 4))
    c.note(a=a.clm.shape)
    d = a.destripe()
    w = c.rng.standard_normal(a.lmax+1)
    v = a.copy().convolve(w)
    for i in range(a.clm.shape[2]):
        x = a.index(i)
        c.close(x.destripe().clm, d.clm[:, :, i], 'destripe', rtol=1e-13)
        c.close(x.destripe().slm, d.slm[:, :, i], 'destripe-sine', rtol=1e-13)
        c.close(x.convolve(w).clm, v.clm[:, :, i], 'convolve', rtol=1e-13)
