"""F01: polynomial and harmonic regression of time series."""
import numpy as np
import scipy.special
import scipy.stats
import gravity_toolkit as g
from rv.core import Check, Skip
from rv.objs import snap, same

LD = np.longdouble
check = Check('F01', 'each case draws a time series (monthly with gaps, '
    'irregular, short or long), terms and options, and compares coefficients, '
    'errors, models and statistics with a least-squares solution in extended '
    'precision (orthogonalization) and the textbook definitions')


def orth(D):
    """Q, R of the columns by Gram-Schmidt, twice, in extended precision"""
    D = D.astype(LD)
    n, k = D.shape
    Q, R = np.zeros((n, k), LD), np.zeros((k, k), LD)
    for j in range(k):
        v = D[:, j].copy()
        for _ in range(2):
            h = Q[:, :j].T @ v
            v -= Q[:, :j] @ h
            R[:j, j] += h
        R[j, j] = np.sqrt(v @ v)
        Q[:, j] = v/R[j, j]
    return Q, R


def inv_upper(R):
    k = len(R)
    X = np.zeros((k, k), LD)
    for j in range(k):
        X[j, j] = 1/R[j, j]
        for i in range(j-1, -1, -1):
            X[i, j] = -(R[i, i+1:j+1] @ X[i+1:j+1, j])/R[i, i]
    return X


def solve(D, d, w=None):
    """coefficients and inverse of the normal matrix"""
    s = np.ones(len(d), LD) if w is None else np.sqrt(w.astype(LD))
    Q, R = orth(D*s[:, None])
    Ri = inv_upper(R)
    return Ri @ (Q.T @ (d.astype(LD)*s)), Ri @ Ri.T


def series(c, k, n=None):
    """times and data of k terms at least"""
    n = c.int(k+3, k+c.pick(10, 60, 160)) if n is None else n
    kind = c.pick('monthly', 'gaps', 'random', 'daily')
    t0 = c.pick(2002.3, 2010.0, 1993.5, 0.0, c.rng.uniform(1950, 2020))
    if kind == 'monthly':
        t = t0+(np.arange(n)+.5)/12
    elif kind == 'gaps':
        t = t0+np.cumsum(c.rng.integers(1, 4, n))/12+.02*c.rng.random(n)
    elif kind == 'random':
        t = t0+np.sort(c.rng.uniform(0, n/10+.5, n))
    else:
        t = t0+np.arange(n)/c.pick(24, 36, 100)
    return kind, t


def data(c, t):
    u = t-t.mean()
    d = c.rng.uniform(-50, 50)+c.rng.uniform(-9, 9)*u+c.rng.uniform(-1, 1)*u**2
    for p in (1.0, .5):
        d = d+c.rng.uniform(0, 5)*np.sin(2*np.pi*t/p+c.rng.uniform(0, 6))
    d = d+c.rng.standard_normal(len(t))*c.pick(.1, 1., 10.)
    return d*c.pick(1.0, 1e-9, 1e3)


def columns(t, cycles, terms):
    cols = []
    for p in cycles:
        a = 2*np.pi*t/p
        cols += [np.sin(a), np.cos(a)]
    return cols+list(terms)


def extra(c, t):
    k = c.pick('none', 'none', 'alias', 'own')
    if k == 'alias' and t.min() < 2018 < t.max() and \
            min((t < 2018).sum(), (t > 2018).sum()) > 8:
        return k, g.time_series.aliasing_terms(t)
    if k == 'own':
        return k, [c.rng.standard_normal(len(t)) for _ in range(c.int(1, 2))]
    return 'none', None


def statistics(c, r, D, d, w, beta, cov, tol, AICc, stat):
    n, k = D.shape
    sc = np.abs(d).max()
    mod = (D.astype(LD) @ beta).astype(float)
    res = d-mod
    c.close(r['model'], mod, 'model', rtol=0, atol=tol*sc)
    c.close(r['residual'], res, 'residual', rtol=0, atol=tol*sc)
    c.eq(int(r['N']), k, 'terms')
    c.eq(int(r['DOF']), n-k, 'freedom')
    sst, sse = ((d-d.mean())**2).sum(), (res**2).sum()
    st = tol*sc**2*n/sse+tol
    c.close(r['R2'], 1-sse/sst, 'R2', rtol=0, atol=st)
    c.close(r['R2Adj'], 1-sse/sst*(n-1)/(n-k), 'R2Adj', rtol=0, atol=st*n/(n-k))
    ll = -.5*n*(np.log(2*np.pi)+1+np.log((res**2 if w is None else
        w*res**2).sum()/n))
    if w is not None:
        ll += .5*np.log(w).sum()
    p = k+1
    aic = -2*ll+2*p
    if AICc:
        aic += 2*p*(p+1)/(n-p-1)
    at = n*st*10+1e-9*abs(ll)
    c.close(r['LOGLIK'], ll, 'likelihood', rtol=0, atol=at)
    c.close(r['AIC'], aic, 'AIC', rtol=0, atol=2*at)
    c.close(r['BIC'], -2*ll+np.log(n)*p, 'BIC', rtol=0, atol=2*at)
    if 'MSE' in r:
        c.close(r['MSE'], sse/(n-k), 'MSE', rtol=st)
    if 'NRMSE' in r:
        c.close(r['NRMSE'], np.sqrt(sse/(n-k))/np.ptp(d), 'NRMSE', rtol=st)
    return sse/(n-k), st


def level(c):
    """options and the two sided probability of the errors"""
    k = c.pick('default', 'STDEV', 'CONF', 'STDEV')
    if k == 'default':
        return {}, .95
    if k == 'CONF':
        p = c.pick(.9, .99, .68, .95)
        return dict(CONF=p), p
    s = c.pick(1, 2, 3, 1.5)
    return dict(STDEV=s), scipy.special.erf(s/np.sqrt(2))


def run(c, fn, t, d, base, kw, cycles, terms, special=None):
    """common part: runs and checks; base holds polynomial columns"""
    n = len(t)
    D = np.stack(base+columns(t, cycles, terms or []), axis=1)
    k = D.shape[1]
    if n < k+3:
        raise Skip()
    how = c.pick('plain', 'plain', 'known', 'weighted', 'weighted')
    w = err = None
    if how == 'weighted':
        err = c.rng.uniform(.5, 3, n)*np.abs(d).max()*.01
        w = 1/err**2
        kw.update(WEIGHT=True, DATA_ERR=c.pick(np.array, list)(err))
        if c.chance(.2):
            kw['DATA_ERR'] = err[:, None]
    elif how == 'known':
        err = float(c.rng.uniform(.1, 5))
        kw['DATA_ERR'] = err
    lev, prob = level(c)
    kw.update(lev)
    AICc = c.pick(None, True, False)
    if AICc is not None:
        kw['AICc'] = AICc
    else:
        AICc = fn is g.time_series.regress
    sv = np.linalg.svd(D if w is None else D/err[:, None], compute_uv=False)
    cond = sv[0]/sv[-1]
    tol = max(1e-11, 1e-14*cond, 0 if w is None else 1e-14*cond**2)
    etol = max(1e-9, 1e-14*cond**2)
    if tol > 1e-4 or etol > 1e-2:
        raise Skip()
    if terms is not None:
        kw['TERMS'] = terms
    if list(cycles) != [.5, 1.] or c.chance(.5):
        kw['CYCLES'] = cycles
    form = c.pick('plain', 'column', 'list' if special is None else 'plain')
    T, Y = dict(plain=(t, d), column=(t[:, None], d[None]),
        list=(list(t), list(d)))[form]
    keep = snap(T, Y, kw)
    c.note(n=n, k=k, how=how, form=form, cycles=cycles, cond=cond,
        options={a: b for a, b in kw.items() if np.ndim(b) == 0})
    if form == 'list' and isinstance(kw.get('RELATIVE', 0), list):
        pass
    r = fn(T, Y, **kw)
    c.ok(same(keep, snap(T, Y, kw)), 'pure')
    beta, cov = solve(D, d, w)
    s = np.sqrt(np.diag(cov)).astype(float)
    unit = np.abs(d).max()
    got = np.array(r['beta'])
    if special is not None:
        got = special(got)
    # an error of the coefficients moves the model by their column
    size = np.linalg.norm(D, axis=0)/np.sqrt(n)
    bt = tol*unit*np.sqrt(n)*np.maximum(1, np.linalg.norm(D, axis=0).max()*0+1)
    c.close(got*size, beta.astype(float)*size, 'beta', rtol=tol*10, atol=bt*np.maximum(
        1, np.abs(beta*size).astype(float).max()/unit))
    mse, st = statistics(c, r, D, d, w, beta, cov, tol, AICc, prob)
    c.close(r['cov_mat'], cov.astype(float), 'covariance', rtol=etol*10,
        atol=etol*np.abs(cov).max().astype(float))
    if how == 'plain':
        e = np.sqrt(mse)*s
        c.ok('std_err' in r, 'has-errors')
        q = scipy.stats.t.ppf(1-(1-prob)/2, n-k)
        return D, r, e, e*q, etol+st
    return D, r, None, s if how == 'weighted' else s*err, etol


@check.section('regress', quick=150, thorough=3000)
def regress(c):
    order = c.int(0, 3)
    cycles = c.pick([.5, 1.], [.5, 1.], [], [1.], [161/365.25, 1.],
        [1., .5], [1., 161/365.25, .5])
    kind, t = series(c, order+1+2*len(cycles)+4)
    name, terms = extra(c, t)
    d = data(c, t)
    rel = c.pick('default', 'value', 'index', 'indices', 'slice')
    if rel == 'default':
        kw, t0 = {}, t.mean()
    elif rel == 'value':
        t0 = c.pick(float(np.round(t.mean(), 1)), float(t[0]),
            np.float64(t.mean()+2), int(np.round(t.mean())))
        kw = dict(RELATIVE=t0)
    else:
        i = np.sort(c.rng.choice(len(t), c.int(1, len(t)), replace=False))
        if rel == 'slice':
            kw, t0 = dict(RELATIVE=Ellipsis), t.mean()
        else:
            kw = dict(RELATIVE=i if rel == 'index' else i.tolist())
            t0 = t[i].mean()
    if order != 1 or c.chance(.5):
        kw['ORDER'] = order
    base = [(t-t0)**o for o in range(order+1)]
    D, r, e, err, tol = run(c, g.time_series.regress, t, d, base, kw, cycles,
        terms)
    c.note(order=order, kind=kind, terms=name, relative=rel)
    sc = np.abs(d).max()
    b = np.asarray(r['beta'])
    poly = D[:, :order+1] @ b[:order+1]
    c.close(r['simple'], poly, 'simple', rtol=1e-9, atol=1e-9*max(sc, np.abs(poly).max()))
    c.close(r['season'], D @ b-poly, 'season', rtol=0, atol=1e-9*max(sc, np.abs(poly).max()))
    if e is not None:
        c.close(r['std_err'], e, 'std_err', rtol=10*tol)
    c.close(r['error'], err, 'error', rtol=10*tol)


@check.section('piecewise', quick=120, thorough=2400)
def piecewise(c):
    cycles = c.pick([.5, 1.], [.5, 1.], [], [1.], [1., .5])
    kind, t = series(c, 10+2*len(cycles))
    name, terms = extra(c, t)
    d = data(c, t)
    n = len(t)
    how = c.pick('index', 'time', 'between')
    i = c.int(4, n-5)
    if how == 'index':
        tb, kw = t[i], dict(BREAKPOINT=c.pick(int, np.int64)(i))
    elif how == 'time':
        tb, kw = t[i], dict(BREAK_TIME=float(t[i]))
    else:
        tb = float(t[i]+c.rng.uniform(.02, .98)*(t[i+1]-t[i]))
        kw = dict(BREAK_TIME=tb)
    # the change of a line in its slope is continuous
    base = [np.ones(n), t, np.maximum(t-tb, 0)]

    def special(b):
        b = b.copy()
        b[2] -= b[1]
        return b
    D, r, e, err, tol = run(c, g.time_series.piecewise, t, d, base, kw, cycles,
        terms, special)
    c.note(kind=kind, terms=name, break_=how)
    # errors of the second trend are of the sum of two coefficients
    k = np.arange(D.shape[1]) != 2
    if e is not None:
        c.close(np.asarray(r['std_err'])[k], e[k], 'std_err', rtol=10*tol)
        c.close(r['std_err'][2], np.hypot(e[1], e[2]), 'std_err-2', rtol=10*tol)
    c.close(np.asarray(r['error'])[k], err[k], 'error', rtol=10*tol)
    c.close(r['error'][2], np.hypot(err[1], err[2]), 'error-2', rtol=10*tol)
    if 'simple' in r:
        b = special(np.asarray(r['beta']))
        v = D[:, :3] @ b[:3]
        c.close(r['simple'], v, 'simple', rtol=1e-8, atol=1e-8*np.abs(v).max())


@check.section('exact', quick=60, thorough=1000)
def exact(c):
    """signals made of the terms of a fit are recovered"""
    fn = c.cycle('regress', 'piecewise')
    kind, t = series(c, 30)
    t = t+c.pick(0, 0, 1)
    cyc = [.5, 1.]
    n = len(t)
    if np.ptp(t) < 1.2:
        raise Skip()
    b = c.rng.uniform(-5, 5, 7)
    c.note(fn=fn, kind=kind, n=n)
    if fn == 'regress':
        base = [np.ones(n), t-t.mean(), (t-t.mean())**2]
    else:
        i = c.int(n//4, 3*n//4)
        tb = float(t[i]+c.rng.uniform(.02, .98)*(t[i+1]-t[i]))
        base = [np.ones(n), t, np.maximum(t-tb, 0)]
    D = np.stack(base+columns(t, cyc, []), axis=1)
    sv = np.linalg.svd(D/np.linalg.norm(D, axis=0), compute_uv=False)
    if sv[0]/sv[-1] > 1e6:
        raise Skip()
    d = D @ b
    r = g.time_series.regress(t, d, ORDER=2) if fn == 'regress' else \
        g.time_series.piecewise(t, d, BREAK_TIME=tb)
    sc = np.abs(d).max()
    c.close(r['residual'], np.zeros(n), 'residual', rtol=0, atol=1e-7*sc)
    got = np.array(r['beta'])
    if fn == 'piecewise':
        b[2] += b[1]
    c.close(got, b, 'beta', rtol=1e-3, atol=1e-5*sc)


@check.section('refused', quick=4, thorough=8)
def refused(c):
    """weights need errors"""
    fn = c.pick(g.time_series.regress, g.time_series.piecewise)
    t = 2002+np.arange(40)/12
    kw = {} if fn is g.time_series.regress else dict(BREAKPOINT=20)
    c.note(fn=fn.__name__)
    c.raises(ValueError, 'weights', fn, t, np.sin(t), WEIGHT=True, **kw)


@check.section('zero-errors', quick=6, thorough=60)
def zeros(c):
    """errors of zero (weights beyond the inverse's reach) are never changed"""
    fn = c.cycle(g.time_series.regress, g.time_series.piecewise)
    t = 2002+np.arange(60)/12
    e = c.rng.uniform(.5, 2, 60)
    e[c.int(0, 59)] = 0
    kw = {} if fn is g.time_series.regress else dict(BREAKPOINT=20)
    keep = e.copy()
    c.note(fn=fn.__name__)
    try:
        fn(t, c.rng.standard_normal(60), WEIGHT=True, DATA_ERR=e, **kw)
    except np.linalg.LinAlgError:
        # an infinite weight makes the normal equations singular
        pass
    c.ok(np.array_equal(keep, e), 'pure')


@check.section('terms', quick=40, thorough=600)
def terms(c):
    """aliasing terms and amplitudes"""
    kind, t = series(c, 5)
    t = t-t.mean()+2018 if c.chance(.6) else t
    p = c.pick(None, 161.0, 322.0, float(c.rng.uniform(20, 400)))
    r = g.time_series.aliasing_terms(t, **({} if p is None else dict(period=p)))
    c.note(n=len(t), period=p)
    x = 2*np.pi*t*365.25/(p or 161.0)
    old = t < 2018
    want = [np.where(old, np.sin(x), 0), np.where(old, np.cos(x), 0),
        np.where(old, 0, np.sin(x)), np.where(old, 0, np.cos(x))]
    c.eq(len(r), 4, 'number')
    for k in range(4):
        c.close(r[k], want[k], f'term-{k}', rtol=0, atol=1e-9)
    a, b = c.rng.standard_normal((2, 7))*c.pick(1, 1e-8, 1e6)
    if c.chance(.3):
        a[0] = 0
        b[1] = 0
    A, ph = g.time_series.amplitude(a, b)
    y = c.rng.uniform(0, 2*np.pi, (50, 1))
    c.close(A*np.sin(y+np.radians(ph)), a*np.sin(y)+b*np.cos(y), 'wave',
        rtol=0, atol=1e-12*np.abs(A).max())
    c.ok(np.all(A >= 0) and np.all(np.abs(ph) <= 180), 'range')
    A, ph = g.time_series.amplitude(float(a[2]), float(b[2]))
    c.close(A, np.hypot(a[2], b[2]), 'scalar', rtol=1e-12)
