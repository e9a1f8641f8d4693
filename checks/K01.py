"""K01: averaging fields over mascons and painting mascons on grids."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv.objs import snap, same

check = Check('K01', 'each case tiles the globe with generated mascons (bands '
    'of latitude cut at random longitudes, polar caps, cells over the 180 and '
    '0 meridians), averages generated fields and paints generated values and '
    'compares every mascon and every grid cell with sums over the cells')


class Tiles:
    """rectangles (south, north, west, width) that cover every cell once"""
    def __init__(self, c, d, origin):
        nlat, nlon = int(180/d), int(360/d)
        self.d = d
        self.boxes = []
        cuts = [0]
        cap = c.chance(.6)
        while cuts[-1] < nlat:
            cuts.append(min(nlat, cuts[-1]+c.int(1, max(1, nlat//3))))
        for i, (a, b) in enumerate(zip(cuts[:-1], cuts[1:])):
            polar = i == 0 or i == len(cuts)-2
            if polar and cap:
                self.boxes.append((-90+a*d, -90+b*d, None, 360.0))
                continue
            w = [0]
            off = c.int(0, nlon-1) if origin == 'any' else 0
            while w[-1] < nlon:
                w.append(min(nlon, w[-1]+c.int(1, nlon//3)))
            for p, q in zip(w[:-1], w[1:]):
                self.boxes.append((-90+a*d, -90+b*d, (off+p)*d, (q-p)*d))
        self.boxes = [self.boxes[i] for i in c.rng.permutation(len(self.boxes))]
        self.n = len(self.boxes)

    def inside(self, k, lat, lon):
        s, n, w, width = self.boxes[k]
        I = (lat > s) & (lat < n)
        J = np.ones(len(lon), bool) if w is None else \
            np.mod(lon-w, 360) < width
        return I, J


def average(f, lat, I, J):
    w = np.cos(np.radians(lat[I]))[:, None]*np.ones(J.sum())
    return (w*f[np.ix_(I, J)]).sum()/w.sum()


def gsfc(c, t, style):
    """centers and spans; longitudes within 0:360 or -180:180"""
    lonc, latc, dlon, dlat = [], [], [], []
    for s, n, w, width in t.boxes:
        if w is None:
            latc.append(90.0 if n == 90 else -90.0)
            dlat.append(n-s)
            lonc.append(c.pick(0.0, 180.0))
            dlon.append(360.0)
        else:
            latc.append((s+n)/2)
            dlat.append(n-s)
            x = np.mod(w+width/2, 360)
            if style == '180' and x > 180:
                x -= 360
            lonc.append(x)
            dlon.append(width)
    return [np.array(v) for v in (lonc, latc, dlon, dlat)]


def jpl(t):
    lonb, latb = np.zeros((t.n, 4)), np.zeros((t.n, 4))
    for k, (s, n, w, width) in enumerate(t.boxes):
        w, width = (0, 360) if w is None else (w, width)
        lonb[k] = w, w, w+width, w+width
        latb[k] = n, s, s, n
    return lonb, latb


def grid(d, style):
    lat = np.arange(90-d/2, -90, -d)
    lon = np.arange(d/2, 360, d) if style == '360' else \
        np.arange(-180+d/2, 180, d)
    return lat, lon


def field(c, lat, lon):
    kind = c.pick('random', 'constant', 'zonal')
    if kind == 'constant':
        return kind, np.full((len(lat), len(lon)), float(c.rng.uniform(-9, 9)))
    f = c.rng.standard_normal((len(lat), len(lon)))
    return kind, f[:, :1]*np.ones(len(lon)) if kind == 'zonal' else f


@check.section('gsfc-average', quick=60, thorough=1000)
def gsfc_average(c):
    d = c.pick(1.0, 2.0, 2.5, 5.0)
    t = Tiles(c, d, 'any')
    style = c.pick('360', '180')
    a = gsfc(c, t, style)
    lat, lon = grid(c.pick(d, d/2), '180')
    if c.chance(.4):
        lat = lat[::-1]
    kind, f = field(c, lat, lon)
    c.note(n=t.n, spacing=d, style=style, kind=kind)
    shape = c.pick('plain', 'column')
    la, lo = (lat, lon) if shape == 'plain' else (lat[:, None], lon[None])
    before = snap(f, la, lo, *a)
    r = g.mascons.to_gsfc(f, lo, la, *a)
    c.ok(same(before, snap(f, la, lo, *a)), 'pure')
    want = np.array([average(f, lat, *t.inside(k, lat, lon)) for k in range(t.n)])
    c.close(r['data'], want, 'data', rtol=1e-10, atol=1e-12)
    c.close(r['lat_center'], a[1], 'latitude', rtol=0)
    c.close(np.mod(r['lon_center'], 360), np.mod(a[0], 360), 'longitude',
        rtol=0, atol=1e-9)
    c.ok(np.all(np.abs(r['lon_center']) <= 180), 'longitude-range')


@check.section('gsfc-paint', quick=60, thorough=1000)
def gsfc_paint(c):
    d = c.pick(1.0, 2.0, 2.5, 5.0)
    t = Tiles(c, d, 'any')
    style = c.pick('360', '180')
    a = gsfc(c, t, style)
    s = c.pick(d, d/2)
    v = c.rng.standard_normal(t.n)
    tr = c.pick(None, True, False)
    key = c.pick('transpose', 'TRANSPOSE')
    before = snap(v, *a)
    r = g.mascons.from_gsfc(v, s, *a, **({} if tr is None else {key: tr}))
    c.note(n=t.n, spacing=s, style=style, transpose=tr)
    c.ok(same(before, snap(v, *a)), 'pure')
    lat, lon = grid(s, '180')
    want = np.full((len(lat), len(lon)), np.nan)
    for k in range(t.n):
        want[np.ix_(*t.inside(k, lat, lon))] = v[k]
    c.ok(not np.isnan(want).any(), 'covers')
    c.close(r.T if tr else r, want, 'grid', rtol=0)
    back = g.mascons.to_gsfc(r.T if tr else r, lon, lat, *a)
    c.close(back['data'], v, 'inverse', rtol=1e-10, atol=1e-12)


@check.section('jpl-average', quick=60, thorough=1000)
def jpl_average(c):
    d = c.pick(1.0, 2.0, 2.5, 5.0)
    t = Tiles(c, d, 'zero')
    lonb, latb = jpl(t)
    lat, lon = grid(c.pick(d, d/2), '360')
    if c.chance(.4):
        lat = lat[::-1]
    kind, f = field(c, lat, lon)
    c.note(n=t.n, spacing=d, kind=kind)
    shape = c.pick('plain', 'column')
    la, lo = (lat, lon) if shape == 'plain' else (lat[:, None], lon[None])
    before = snap(f, la, lo, lonb, latb)
    r = g.mascons.to_jpl(f, lo, la, lonb, latb)
    c.ok(same(before, snap(f, la, lo, lonb, latb)), 'pure')
    want = np.array([average(f, lat, *t.inside(k, lat, lon)) for k in range(t.n)])
    c.close(r['data'], want, 'data', rtol=1e-10, atol=1e-12)
    c.ok(not r['mask'].any(), 'mask')
    for k, (s, n, w, width) in enumerate(t.boxes):
        if n == 90 or s == -90:
            c.eq((float(r['lat'][k]), float(r['lon'][k])),
                (-90.0 if s == -90 else 90.0, 0.0), 'pole')
        else:
            c.close(r['lat'][k], (s+n)/2, 'latitude', rtol=0, atol=1e-9)
            c.close(r['lon'][k], w+width/2, 'longitude', rtol=0, atol=1e-9)


@check.section('jpl-paint', quick=60, thorough=1000)
def jpl_paint(c):
    d = c.pick(1.0, 2.0, 2.5, 5.0)
    t = Tiles(c, d, 'zero')
    lonb, latb = jpl(t)
    s = c.pick(d, d/2)
    v = c.rng.standard_normal(t.n)
    tr = c.pick(None, True, False)
    key = c.pick('transpose', 'TRANSPOSE')
    before = snap(v, lonb, latb)
    r = g.mascons.from_jpl(v, s, lonb, latb, **({} if tr is None else {key: tr}))
    c.note(n=t.n, spacing=s, transpose=tr)
    c.ok(same(before, snap(v, lonb, latb)), 'pure')
    lat, lon = grid(s, '360')
    lat = lat[::-1]
    want = np.full((len(lat), len(lon)), np.nan)
    for k in range(t.n):
        want[np.ix_(*t.inside(k, lat, lon))] = v[k]
    c.close(r.T if tr else r, want, 'grid', rtol=0)
    back = g.mascons.to_jpl(r.T if tr else r, lon, lat, lonb, latb)
    c.close(back['data'], v, 'inverse', rtol=1e-10, atol=1e-12)


@check.section('edges', quick=30, thorough=400)
def edges(c):
    """grid points on the edges of mascons belong to one of them"""
    d = c.pick(2.0, 5.0, 10.0)
    kind = c.pick('gsfc', 'jpl')
    t = Tiles(c, d, 'any' if kind == 'gsfc' else 'zero')
    a = gsfc(c, t, c.pick('360', '180')) if kind == 'gsfc' else jpl(t)
    step = c.pick(d, d/2)
    lat = np.arange(90-step, -90-step/2, -step)
    lon = np.arange(-180, 180, step) if kind == 'gsfc' else np.arange(0, 360, step)
    if c.chance(.4):
        lat = lat[::-1]
    c.note(kind=kind, n=t.n, spacing=d, step=step)
    fn = g.mascons.to_gsfc if kind == 'gsfc' else g.mascons.to_jpl
    ones = fn(np.ones((len(lat), len(lon))), lon, lat, *a)['data']
    c.close(ones, np.ones(t.n), 'mean', rtol=0, atol=1e-12)
    for _ in range(12):
        i = c.pick(*np.flatnonzero(lat > -90))
        j = c.pick(c.int(0, len(lon)-1), 0, int(np.flatnonzero(lon == 0)[0]), len(lon)-1)
        f = np.zeros((len(lat), len(lon)))
        f[i, j] = 1.0
        r = fn(f, lon, lat, *a)['data']
        c.eq(int(np.count_nonzero(np.abs(r) > 1e-12)), 1, 'once')
        k = int(np.argmax(r))
        s, n, w, width = t.boxes[k]
        c.ok(s <= lat[i] <= n and (w is None or
            np.mod(lon[j]-w, 360) <= width or np.mod(lon[j]-w, 360) == 0), 'inside')


@check.section('empty', quick=20, thorough=200)
def empty(c):
    """JPL mascons without grid cells are masked"""
    t = Tiles(c, 10.0, 'zero')
    lonb, latb = jpl(t)
    lat, lon = grid(1.0, '360')
    keep = lat > c.pick(0.0, 30.0, -20.0)
    f = c.rng.standard_normal((keep.sum(), len(lon)))
    r = g.mascons.to_jpl(f, lon, lat[keep], lonb, latb)
    c.note(n=t.n, rows=int(keep.sum()))
    for k in range(t.n):
        I, J = t.inside(k, lat[keep], lon)
        c.eq(bool(r['mask'][k]), not I.any(), 'mask')
        want = average(f, lat[keep], I, J) if I.any() else 0.0
        c.close(r['data'][k], want, 'data', rtol=1e-10, atol=1e-12)
