"""U01: map tools: shifting, wrapping and interpolating grids, colour maps."""
import colorsys
import os
import numpy as np
import gravity_toolkit as g
from rv.core import Check

check = Check('U01', 'each case draws a grid, points and options; values at '
    'every longitude, at every interpolated point and at every color level '
    'are compared with those of the drawn grid and palette')
tools = g.tools


@check.section('wrap', quick=40, thorough=500)
def wrap(c):
    x = c.rng.uniform(-1000, 1000, c.int(1, 50))
    if c.chance(.3):
        x = c.rng.integers(-720, 720, 30)*1.0
    s = x.copy()
    w = tools.wrap_longitudes(x)
    c.ok(np.array_equal(s, x), 'pure')
    c.ok(np.all(np.abs(w) <= 180), 'range')
    d = (w-x)/360
    c.close(d, np.round(d), 'turns', rtol=0, atol=1e-10)
    v = float(x[0])
    c.close(tools.wrap_longitudes(v), w[0], 'scalar', rtol=0, atol=0)


@check.section('shift', quick=80, thorough=1500)
def shift(c):
    """every column keeps its longitude (modulo the cycle)"""
    cyc = c.pick(360.0, 360.0, 360.0, 24.0)
    n = c.int(3, 40)
    d = cyc/n
    first = c.pick(0.0, d/2, -cyc/2, -cyc/2+d/2)
    lon = first+d*np.arange(n)
    wrap = c.chance(.5)
    if wrap:
        lon = np.append(lon, lon[0]+cyc)
    k = len(lon)
    nlat = c.int(1, 8)
    data = np.repeat(np.cos(2*np.pi*lon/cyc)[None]*3, nlat, axis=0) \
        + np.arange(nlat)[:, None]*10 if c.chance(.5) else c.rng.standard_normal((nlat, k))
    if wrap:
        data[:, -1] = data[:, 0]
    masked = c.chance(.4)
    if masked:
        m = c.rng.random((nlat, k)) < .3
        if wrap:
            m[:, -1] = m[:, 0]
        data = np.ma.array(data, mask=m)
    i = c.pick(0, k-1, c.int(0, k-1))
    lon0 = lon[i]+c.pick(0, .2*d, -.2*d)
    c.note(n=k, wrap=wrap, first=first, index=i, masked=masked, cyclic=cyc)
    kl, kd = lon.copy(), data.copy()
    kw = {} if cyc == 360 and c.chance(.5) else dict(CYCLIC=cyc)
    sd, sl = tools.shift_grid(lon0, data, lon, **kw)
    c.ok(np.array_equal(kl, lon) and np.ma.allequal(kd, data)
        and np.array_equal(np.ma.getmaskarray(kd), np.ma.getmaskarray(data)), 'pure')
    c.eq(sl.shape, lon.shape, 'shape')
    c.close(sl[0], lon[i]-cyc, 'start', rtol=0, atol=1e-9)
    c.close(np.diff(sl), np.full(k-1, d), 'increasing', rtol=0, atol=1e-9*cyc)
    at = {}
    for j in range(k):
        at[int(np.round((lon[j]-first)/d)) % n] = j
    src = np.array([at[int(np.round((x-first)/d)) % n] for x in np.asarray(sl)])
    c.ok(np.array_equal(np.ma.getmaskarray(sd), np.ma.getmaskarray(data)[:, src]), 'mask')
    m = np.ma.getmaskarray(sd)
    c.ok(np.array_equal(np.ma.getdata(sd)[~m], np.ma.getdata(data)[:, src][~m]), 'values')
    c.eq(np.ma.isMA(sd), masked, 'type')


@check.section('nearest', quick=60, thorough=1000)
def nearest(c):
    ny, nx = c.int(2, 20), c.int(2, 20)
    x = c.rng.uniform(-180, 0)+c.rng.uniform(.1, 10)*np.arange(nx)
    y = c.rng.uniform(-90, 0)+c.rng.uniform(.1, 10)*np.arange(ny)
    if c.chance(.3):
        y = y[::-1].copy()
    data = c.rng.standard_normal((ny, nx))
    masked = c.chance(.3)
    if masked:
        data = np.ma.array(data, mask=c.rng.random(data.shape) < .3)
    n = c.int(1, 60)
    px = c.rng.uniform(x.min()-5, x.max()+5, n)
    py = c.rng.uniform(y.min()-5, y.max()+5, n)
    if c.chance(.3):
        px, py = np.meshgrid(px[:5], py[:4])
    dx, dy = np.abs(px[..., None]-x), np.abs(py[..., None]-y)
    i, j = dx.argmin(axis=-1), dy.argmin(axis=-1)
    c.note(nx=nx, ny=ny, masked=masked)
    kw = {} if c.chance(.5) else dict(order=0)
    r = tools.interp_grid(data, x, y, px, py, **kw)
    # ties have two answers
    sx, sy = np.sort(dx, axis=-1), np.sort(dy, axis=-1)
    ok = (sx[..., 1]-sx[..., 0] > 1e-9) & (sy[..., 1]-sy[..., 0] > 1e-9)
    want = data[j, i]
    c.eq(r.shape, px.shape, 'shape')
    c.ok(np.array_equal(np.ma.getmaskarray(r)[ok], np.ma.getmaskarray(want)[ok]), 'mask')
    ok &= ~np.ma.getmaskarray(want)
    c.ok(np.array_equal(np.ma.getdata(r)[ok], np.ma.getdata(want)[ok]), 'values')


@check.section('spline', quick=60, thorough=1000)
def spline(c):
    """exact at the nodes and for polynomials; bilinear for order one"""
    k = c.cycle(1, 2, 3, 4, 5)
    ny, nx = c.int(k+2, 20), c.int(k+2, 20)
    x = c.rng.uniform(-180, 0)+c.rng.uniform(.5, 10)*np.arange(nx)
    y = c.rng.uniform(-90, 0)+c.rng.uniform(.5, 10)*np.arange(ny)
    data = c.rng.standard_normal((ny, nx))*c.pick(1, 1e-6, 1e4)
    s = np.abs(data).max()
    c.note(order=k, nx=nx, ny=ny)
    X, Y = np.meshgrid(x, y)
    r = tools.interp_grid(data, x, y, X, Y, order=k)
    c.close(r, data, 'nodes', rtol=0, atol=1e-9*s)
    n = c.int(1, 40)
    px = c.rng.uniform(x[0], x[-1], n)
    py = c.rng.uniform(y[0], y[-1], n)
    f = c.rng.standard_normal((k+1, k+1))
    u, v = (lambda q: (q-x[0])/np.ptp(x)), (lambda q: (q-y[0])/np.ptp(y))
    P = np.polynomial.polynomial.polyval2d(u(X), v(Y), f)
    r = tools.interp_grid(P, x, y, px, py, order=k)
    c.close(r, np.polynomial.polynomial.polyval2d(u(px), v(py), f), 'polynomial',
        rtol=0, atol=1e-8*np.abs(f).sum())
    if k == 1:
        r = tools.interp_grid(data, x, y, px, py, order=1)
        i = np.clip(np.searchsorted(x, px)-1, 0, nx-2)
        j = np.clip(np.searchsorted(y, py)-1, 0, ny-2)
        a, b = (px-x[i])/(x[i+1]-x[i]), (py-y[j])/(y[j+1]-y[j])
        want = (1-b)*((1-a)*data[j, i]+a*data[j, i+1])+b*((1-a)*data[j+1, i]+a*data[j+1, i+1])
        c.close(r, want, 'bilinear', rtol=0, atol=1e-9*s)


def registered(c, name, cmap):
    """the color map is known to matplotlib by its name"""
    import matplotlib.pyplot as plt
    found = plt.get_cmap(name)
    c.eq(found.N, cmap.N, 'registered-size')
    c.close(found(np.arange(cmap.N)), cmap(np.arange(cmap.N)), 'registered-colors', rtol=0, atol=0)
    for k in ('under', 'over', 'bad'):
        c.close(getattr(found, 'get_'+k)(), getattr(cmap, 'get_'+k)(), 'registered-'+k, rtol=0, atol=0)


@check.section('palette', quick=40, thorough=500)
def palette(c):
    """colors of a table file at and between its levels"""
    n = c.int(2, 10)
    x = np.cumsum(c.rng.uniform(.5, 30, n+1))-c.pick(0, 100)
    x = np.round(x, 2)
    hsv = c.chance(.4)
    if hsv:
        node = np.stack([c.rng.integers(0, 360, n+1), np.round(c.rng.random(n+1), 3),
            np.round(c.rng.random(n+1), 3)], axis=1).astype(float)
        rgb = np.array([colorsys.hsv_to_rgb(h/360, s, v) for h, s, v in node])
        fmt = '{:g} {:g} {:g}'
    else:
        node = c.rng.integers(0, 256, (n+1, 3)).astype(float)
        rgb = node/255
        fmt = '{:g} {:g} {:g}'
    BFN = {k: c.rng.integers(0, 256, 3).astype(float) for k in 'BFN' if c.chance(.6)}
    if hsv:
        BFN = {k: np.array([int(v[0]), .5, .25]) for k, v in BFN.items()}
    name = c.pick('relief', 'My_Map-2', 'palette.v1')
    f = os.path.join(c.scratch(), name+c.pick('.cpt', '.CPT'))
    with open(f, 'w') as h:
        h.write('# a palette\n')
        if hsv or c.chance(.6):
            h.write(f'# COLOR_MODEL = {"HSV" if hsv else "RGB"}\n')
        sep = c.pick(' ', '\t', '   ')
        for i in range(n):
            h.write(sep.join((f'{x[i]:g}', fmt.format(*node[i]), f'{x[i+1]:g}',
                fmt.format(*node[i+1])))+'\n')
        for k, v in BFN.items():
            h.write(f'{k} '+fmt.format(*v)+'\n')
    use = c.chance(.7)
    kw = {} if use and c.chance(.5) else dict(use_extremes=use)
    N = c.pick(256, 64)
    if N != 256:
        kw['N'] = N
    c.note(n=n, hsv=hsv, flags=list(BFN), use=use)
    cmap = tools.from_cpt(f if c.chance(.5) else os.path.relpath(f), **kw)
    c.eq(cmap.name, name, 'name')
    c.eq(cmap.N, N, 'size')
    q = np.linspace(0, 1, N)
    want = np.stack([np.interp(q, (x-x[0])/(x[-1]-x[0]), rgb[:, k]) for k in range(3)], axis=1)
    c.close(cmap(np.arange(N))[:, :3], want, 'colors', rtol=0, atol=1e-6)
    registered(c, name, cmap)
    if use:
        conv = (lambda v: colorsys.hsv_to_rgb(v[0]/360, v[1], v[2])) if hsv else (lambda v: v/255)
        for k, get in (('B', cmap.get_under), ('F', cmap.get_over), ('N', cmap.get_bad)):
            if k in BFN:
                c.close(get()[:3], conv(BFN[k]), 'extreme-'+k, rtol=0, atol=1e-9)


@check.section('custom', quick=9, thorough=60)
def custom(c):
    """named color maps have the colors of their definitions"""
    name = c.cycle('Joughin', 'Rignot', 'Seroussi')
    N = c.pick(16, 100, 255, 256)
    c.note(name=name, N=N)
    m = tools.custom_colormap(N, c.pick(name, name.lower(), name.upper()))
    c.eq(m.name, name, 'name')
    if name == 'Seroussi':
        col = np.array([colorsys.hsv_to_rgb(v, 1, 1) for v in np.linspace(0, 1, N)])
        col = col[::-1][1:int(np.floor(.7*N))]
        col = np.array([colorsys.rgb_to_hsv(*v) for v in col])
        col = np.array([colorsys.hsv_to_rgb(v[0], min(max(.1+v[0], 0), 1), v[2]) for v in col])
    else:
        h = np.linspace(.1 if name == 'Joughin' else 0, 1, N)
        s = np.ones(N) if name == 'Joughin' else np.clip(.1+h, 0, 1)
        col = np.array([colorsys.hsv_to_rgb(a, b, 1) for a, b in zip(h, s)])
    q = np.linspace(0, 1, m.N)
    want = np.stack([np.interp(q, np.linspace(0, 1, len(col)), col[:, k]) for k in range(3)], axis=1)
    c.close(m(np.arange(m.N))[:, :3], want, 'colors', rtol=0, atol=1e-6)
    registered(c, name, m)
    c.raises(ValueError, 'unknown', tools.custom_colormap, N, 'nothing')
