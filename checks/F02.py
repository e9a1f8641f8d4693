"""F02: moving windows, local polynomials and periodograms of time series."""
import math
import numpy as np
import scipy.special
import scipy.stats
import gravity_toolkit as g
from rv.core import Check

LD = np.longdouble
check = Check('F02', 'each case draws a time series and window options and '
    'compares every output with a fit of each window on its own, in centred '
    'coordinates and extended precision, or with the classical periodogram')


def snap(arrays):
    return [np.copy(a) for a in arrays]


def same(before, now):
    return all(np.array_equal(a, b) and np.shape(a) == np.shape(b)
        for a, b in zip(before, now))


def lstsq(D, y):
    """solution and inverse normal matrix (Gram-Schmidt, extended)"""
    D = D.astype(LD)
    n, k = D.shape
    Q, R = np.zeros((n, k), LD), np.zeros((k, k), LD)
    for j in range(k):
        v = D[:, j].copy()
        for _ in range(2):
            h = Q[:, :j].T @ v
            v -= Q[:, :j] @ h
            R[:j, j] += h
        R[j, j] = np.sqrt(v @ v)
        Q[:, j] = v/R[j, j]
    X = np.zeros((k, k), LD)
    for j in range(k):
        X[j, j] = 1/R[j, j]
        for i in range(j-1, -1, -1):
            X[i, j] = -(R[i, i+1:j+1] @ X[i+1:j+1, j])/R[i, i]
    return X @ (Q.T @ np.asarray(y, LD)), X


def series(c, n, even=False):
    t0 = c.pick(2002.3, 2010.0, 1993.5, float(c.rng.uniform(1950, 2020)))
    t = t0+(np.arange(n)+.5)/12
    if not even and c.chance(.5):
        t = t+.02*c.rng.random(n)
    if not even and c.chance(.3):
        t = t+np.cumsum(c.rng.random(n) < .1)/12
    y = c.rng.standard_normal()*10*(t-t0)+c.rng.standard_normal()*c.pick(0, 100) \
        + c.rng.standard_normal()*5*np.sin(2*np.pi*t+c.rng.random()*6) \
        + c.rng.standard_normal()*np.cos(4*np.pi*t)+c.pick(.01, 1., 3.)*c.rng.standard_normal(n)
    return t, y*c.pick(1., 1., 1e-9, 1e5)


def design(t):
    """value and trend about the centre, and seasonal terms"""
    w = 2*LD(math.pi)
    tl = t.astype(LD)
    return np.stack([np.ones(len(t), LD), tl-tl[len(t)//2], np.sin(2*np.pi*t).astype(LD),
        np.cos(2*np.pi*t).astype(LD), np.sin(4*np.pi*t).astype(LD),
        np.cos(4*np.pi*t).astype(LD)], axis=1)


def squeeze(c, *arrays):
    """singleton dimensions are removed"""
    if c.chance(.15):
        return [a[:, None] for a in arrays]
    if c.chance(.15):
        return [a[None, :] for a in arrays]
    return [a.copy() for a in arrays]


@check.section('moving', quick=40, thorough=800)
def moving(c):
    """centred average with half weights at its ends"""
    h = c.pick(6, 6, 1, 2, 3, 12)
    n = 2*h+c.pick(1, 2, 5, 40)
    t, y = series(c, n)
    a, b = squeeze(c, t, y)
    s = snap((a, b))
    r = g.time_series.smooth(a, b, HFWTH=h, MOVING=True)
    c.note(half=h, n=n)
    c.ok(same(s, (a, b)), 'pure')
    w = np.ones(2*h+1)
    w[[0, -1]] = .5
    want = np.array([w @ y[i-h:i+h+1]/w.sum() for i in range(h, n-h)])
    c.near(r['data'], want, 'data', 1e-12, )
    c.close(r['time'], t[h:n-h], 'time', rtol=0)


@check.section('loess', quick=60, thorough=1200)
def loess(c):
    """value, trend and season of each window at its centre"""
    h = c.pick(6, 6, 6, 5, 8, 12)
    n = 2*h+c.pick(1, 2, 5, 40)
    t, y = series(c, n)
    a, b = squeeze(c, t, y)
    kw, scale = {}, None
    mode = c.pick('default', 'stdev', 'conf', 'known')
    if mode == 'stdev':
        kw['STDEV'] = c.pick(1.0, 2, 3, .5)
        conf = scipy.special.erf(kw['STDEV']/np.sqrt(2))
    elif mode == 'conf':
        kw['CONF'] = conf = c.pick(.5, .9, .99, .68)
    elif mode == 'known':
        kw['DATA_ERR'] = float(c.rng.uniform(.1, 5))
    else:
        conf = .95
    s = snap((a, b))
    c.note(half=h, n=n, mode=mode, t=t, y=y)
    r = g.time_series.smooth(a, b, HFWTH=h, **kw)
    c.ok(same(s, (a, b)), 'pure')
    m = n-2*h
    want = {k: np.zeros(m) for k in ('data', 'trend', 'error', 'seasonal',
        'annual', 'semiann', 'annamp', 'semiamp')}
    phase = np.zeros((2, m, 2))
    for i in range(m):
        tw, yw = t[i:i+2*h+1], y[i:i+2*h+1]
        D = design(tw)
        x, X = lstsq(D, yw)
        cov = X @ X.T
        if mode == 'known':
            e = kw['DATA_ERR']*np.sqrt(cov[1, 1])
        else:
            nu = 2*h+1-6
            e = scipy.stats.t.ppf(.5+conf/2, nu)*np.sqrt(
                np.sum((yw-D @ x)**2)/nu*cov[1, 1])
        want['data'][i] = x[0]
        want['trend'][i] = x[1]
        want['error'][i] = e
        want['annual'][i] = D[h, 2:4] @ x[2:4]
        want['semiann'][i] = D[h, 4:] @ x[4:]
        want['seasonal'][i] = D[h, 2:] @ x[2:]
        want['annamp'][i] = np.hypot(*x[2:4])
        want['semiamp'][i] = np.hypot(*x[4:])
        phase[:, i] = x[2:4], x[4:]
    big = np.abs(y).max()
    for k, v in want.items():
        # the normal matrix of the errors is inverted about the year 0
        tol = 1e-3*np.abs(v) if k == 'error' else (
            1e-6 if k == 'trend' else 1e-7)*big
        c.ok(np.all(np.abs(r[k]-v) <= tol), k, f'{k}: {r[k][:3]} is not {v[:3]}',
            worst=np.max(np.abs(r[k]-v)))
    for p, k, A in ((phase[0], 'annphase', r['annamp']), (phase[1], 'semiphase', r['semiamp'])):
        c.ok(np.all(np.abs(r[k]) <= 180), 'phase-range')
        w = np.radians(r[k])
        c.close(np.stack([A*np.cos(w), A*np.sin(w)], axis=1), p, k, rtol=0, atol=1e-6*big)
    c.close(r['time'], t[h:n-h], 'time', rtol=0)
    c.close(r['reduce'], y[h:n-h], 'reduce', rtol=0)
    c.close(r['noise'], y[h:n-h]-want['data']-want['seasonal'], 'noise', rtol=0, atol=1e-7*big)


@check.section('weighted', quick=50, thorough=900)
def weighted(c):
    """overlapping windows averaged with weights at all dates"""
    W = c.cycle(1, 2)
    h = c.pick(6, 6, 6, 5, 8)
    n = 2*h+c.pick(1, 2, 5, 40)
    t, y = series(c, n)
    a, b = squeeze(c, t, y)
    s = snap((a, b))
    c.note(half=h, n=n, weight=W, t=t, y=y)
    r = g.time_series.smooth(a, b, HFWTH=h, WEIGHT=W)
    c.ok(same(s, (a, b)), 'pure')
    k = np.arange(-h, h+1)
    w = h+1.0-np.abs(k) if W == 1 else np.exp(-k**2/8.)/np.sqrt(8*np.pi)
    names = ('data', 'seasonal', 'annual', 'semiann', 'annamp', 'semiamp')
    want = {q: np.zeros(n) for q in names}
    tot = np.zeros(n)
    for i in range(n-2*h):
        u = slice(i, i+2*h+1)
        D = design(t[u])
        x, _ = lstsq(D, y[u])
        parts = (D[:, :2] @ x[:2], D[:, 2:] @ x[2:], D[:, 2:4] @ x[2:4],
            D[:, 4:] @ x[4:], np.hypot(*x[2:4]), np.hypot(*x[4:]))
        for q, v in zip(names, parts):
            want[q][u] += (w*v).astype(float)
        tot[u] += w
    big = np.abs(y).max()
    for q in names:
        c.close(r[q], want[q]/tot, q, rtol=0, atol=1e-7*big)
    c.close(r['weight'], tot, 'weight', rtol=1e-12)
    c.close(r['time'], t, 'time', rtol=0)
    c.close(r['noise'], y-(want['data']+want['seasonal'])/tot, 'noise', rtol=0, atol=2e-7*big)


@check.section('savitzky-golay', quick=100, thorough=2000)
def sg(c):
    """derivatives of the polynomial fitted to each window"""
    order = c.pick(2, 2, 0, 1, 3, 4, 5)
    kw = {}
    if order != 2 or c.chance(.5):
        kw['ORDER'] = order
    if c.chance(.6):
        kw['WINDOW'] = w = 2*((order+2)//2)+1+2*c.int(0, 5)
    else:
        w = order-order % 2+3
    if c.chance(.6):
        kw['DERIV'] = c.int(0, order)
    d = kw.get('DERIV', 0)
    if c.chance(.4):
        kw['RATE'] = c.pick(2, 12, .5, 30.0)
    err = c.pick(0, 0, 1.0, float(c.rng.uniform(.01, 9)))
    if err:
        kw['DATA_ERR'] = err
    n = w+c.pick(0, 1, 3, 40)
    t, y = series(c, n)
    t = t-c.pick(0, 2000)
    a, b = squeeze(c, t, y) if n > w else (t.copy(), y.copy())
    c.note(kw=kw, n=n, t=t, y=y)
    s = snap((a, b))
    r = g.time_series.savitzky_golay(a, b, **kw)
    c.ok(same(s, (a, b)), 'pure')
    h = (w-1)//2
    want, we = np.zeros(n-2*h), np.zeros(n-2*h)
    f = math.factorial(d)*float(kw.get('RATE', 1))**d
    for i in range(n-2*h):
        tw = t[i:i+w].astype(LD)
        D = (tw-tw[h])[:, None]**np.arange(order+1)
        x, X = lstsq(D, y[i:i+w])
        want[i] = x[d]*f
        we[i] = err*f*np.sqrt((X @ X.T)[d, d])
    # values of order 1 amplified by the filter
    gain = f*np.sqrt((X @ X.T)[d, d])*np.abs(y).max()*np.sqrt(w)
    c.close(r['data'], want, 'data', rtol=0, atol=float(1e-7*gain))
    c.close(r['time'], t[h:n-h], 'time', rtol=0)
    c.close(r['error'], we, 'error', rtol=1e-6)
    p = c.rng.standard_normal(order+1)
    z = np.polynomial.polynomial.polyval(t-t[0], p)
    zd = np.polynomial.polynomial.polyval(t-t[0], np.polynomial.polynomial.polyder(p, d)) \
        * float(kw.get('RATE', 1))**d
    r = g.time_series.savitzky_golay(t, z, **kw)
    c.close(r['data'], zd[h:n-h], 'polynomial', rtol=0,
        atol=float(1e-7*gain/np.abs(y).max()*np.abs(z).max()))


@check.section('savitzky-refused', quick=10, thorough=20)
def refused(c):
    t = 2002+np.arange(60)/12
    o = c.int(0, 5)
    even = 2*c.int(1, 8)
    c.raises(ValueError, 'even', g.time_series.savitzky_golay, t, t, WINDOW=even, ORDER=o)
    c.raises(ValueError, 'negative', g.time_series.savitzky_golay, t, t, WINDOW=-3, ORDER=0)
    small = o if o % 2 else o+1
    c.raises(ValueError, 'small', g.time_series.savitzky_golay, t, t, WINDOW=small, ORDER=o)


@check.section('lomb-scargle', quick=60, thorough=1200)
def periodogram(c):
    """classical normalized periodogram over a range of frequencies"""
    n = c.int(10, 120)
    t, y = series(c, n)
    y = y-c.pick(0, 1)*y.mean()
    lo, hi = sorted(c.rng.uniform(.1, 6, 2))
    hi += .2
    kind = c.cycle('OMEGA', 'FREQUENCY', 'PERIOD')
    if kind == 'OMEGA':
        rng = [2*np.pi*lo, 2*np.pi*hi]
    elif kind == 'FREQUENCY':
        rng = [lo, hi]
    else:
        rng = [1/lo, 1/hi]
    if c.chance(.5):
        rng = tuple(rng)
    kw = {kind: rng}
    N = 1000
    if c.chance(.7):
        kw['N'] = N = c.int(2, 400)
    p = [.05, .01, .001, 1e-4, 1e-5, 1e-6]
    if c.chance(.4):
        kw['p'] = p = [.3, .1]
    norm = c.chance(.25)
    if norm:
        kw['NORMALIZE'] = True
    a, b = squeeze(c, t, y)
    c.note(n=n, kind=kind, range=rng, N=N)
    s = snap((a, b))
    r = g.time_series.lomb_scargle(a, b, **kw)
    c.ok(same(s, (a, b)), 'pure')
    om = np.linspace(2*np.pi*lo, 2*np.pi*hi, N)
    z = (y-y.mean())/np.sqrt(np.mean((y-y.mean())**2))
    u = t-t.mean()
    tau = np.arctan2(np.sum(np.sin(2*om[:, None]*u), axis=1),
        np.sum(np.cos(2*om[:, None]*u), axis=1))/(2*om)
    x = om[:, None]*(u-tau[:, None])
    C, S = np.cos(x), np.sin(x)
    P = .5*((C @ z)**2/np.sum(C**2, axis=1)+(S @ z)**2/np.sum(S**2, axis=1))
    if norm:
        P = P*2/(z @ z)
    # orders nearly half a sampling apart divide zero by zero
    good = np.minimum(np.sum(C**2, axis=1), np.sum(S**2, axis=1)) > 1e-3
    c.close(r['frequency'], om/(2*np.pi), 'frequency', rtol=1e-10)
    c.close(r['period'], 2*np.pi/om, 'period', rtol=1e-10)
    c.close(r['PowerDensity'][good], P[good], 'power', rtol=1e-6, atol=1e-7*P[good].max())
    ni = max(np.round(-6.362+1.193*n+.00098*n**2), 1)
    got = r['PowerDensity']
    c.close(r['Probability'], -np.expm1(ni*np.log1p(-np.exp(-got))) if not norm
        else 1-(1-np.exp(-got))**ni, 'probability', rtol=1e-6, atol=1e-12)
    c.close(r['contour'], -np.log(-np.expm1(np.log1p(-np.array(p))/ni)), 'contour', rtol=1e-6)
    c.close(r['Nyquist'], .5*(n-1)/(t[-1]-t[0]), 'nyquist', rtol=1e-9)
    c.eq(float(r['peak']), float(r['period'][np.argmax(got)]), 'peak')
    c.close(r['centroid'], np.sum(got*r['period'])/np.sum(got), 'centroid', rtol=1e-9)


@check.section('lomb-peak', quick=20, thorough=300)
def peak(c):
    """the period of a sinusoid is found whichever way the range is given"""
    n = c.int(60, 200)
    t, _ = series(c, n)
    per = c.rng.uniform(.4, 2)
    y = c.rng.uniform(.5, 9)*np.sin(2*np.pi*t/per+c.rng.random()*6)+c.pick(0, 0, 50)
    rng = dict(OMEGA=[2*np.pi/3, 2*np.pi/.3], FREQUENCY=[1/3, 1/.3], PERIOD=[.3, 3])
    k = c.cycle(*rng)
    c.note(kind=k, period=per, n=n)
    r = g.time_series.lomb_scargle(t, y, N=2000, **{k: rng[k]})
    c.close(1/r['peak'], 1/per, 'found', rtol=0, atol=.25/(t[-1]-t[0])+.01)
    c.raises(ValueError, 'no-range', g.time_series.lomb_scargle, t, y)
