"""generators of toolkit objects and bit-exact snapshots (purity monitor)"""
import io
import pathlib
import numpy as np
import gravity_toolkit as g


def tri(L, M):
    return np.arange(M+1)[None, :] <= np.arange(L+1)[:, None]


def harm(c, L=None, M=None, nt='pick', start=2002.3, dated=True, hi=12):
    """random harmonics object; nt None means a single field"""
    L = c.int(1, hi) if L is None else L
    M = (L if c.chance(.5) else c.int(0, L)) if M is None else M
    nt = c.pick(None, 1, c.int(2, 6)) if nt == 'pick' else nt
    h = g.harmonics(lmax=L, mmax=M)
    shape = (L+1, M+1) if nt is None else (L+1, M+1, nt)
    t = tri(L, M)
    t = t if nt is None else t[:, :, None]
    h.clm = c.rng.standard_normal(shape)*t
    h.slm = c.rng.standard_normal(shape)*t
    h.slm[:, 0] = 0
    if dated:
        if nt is None:
            m = c.int(4, 240)
            h.month = np.int64(m)
            h.time = np.float64(2002 + (m-0.5)/12)
        else:
            m = 4 + np.cumsum(c.rng.integers(1, 4, nt))
            h.month = m.astype(np.int64)
            h.time = 2002 + (m-0.5)/12
    return h


def othercase(c, path, rename=True):
    """the name of a stored file in another case, beside files whose names
    only resemble it"""
    path = pathlib.Path(path)
    name = path.name
    odd = c.pick('', '', '+SLR', '(1)', '[v2]', ' copy')
    if odd and rename:
        name = path.stem + odd + path.suffix
        path.with_name(name).write_bytes(path.read_bytes())
    for other in (name+'.old', name+'2', 'x'+name, name.replace('.', '_'),
            path.stem+'.other'):
        if other != name and c.chance(.7):
            path.with_name(other).write_bytes(b'another file\n')
    return str(path.with_name(name.swapcase()))


def snap(*objs):
    """deep, comparable copy of everything reachable from the objects"""
    def one(o):
        if isinstance(o, np.ma.MaskedArray):
            return ('ma', np.array(o.data, copy=True),
                np.array(np.ma.getmaskarray(o), copy=True))
        if isinstance(o, np.ndarray):
            return ('a', np.array(o, copy=True))
        if isinstance(o, dict):
            return ('d', {k: one(v) for k, v in o.items()})
        if isinstance(o, (list, tuple)):
            return ('l', [one(v) for v in o])
        if isinstance(o, zip):
            return ('zip',)
        if isinstance(o, io.BytesIO):
            return ('b', None if o.closed else o.getvalue())
        if hasattr(o, '__dict__') and type(o).__module__.startswith('gravity'):
            return ('o', {k: one(v) for k, v in vars(o).items()
                if not k.startswith('__')})
        return ('v', o)
    return [one(o) for o in objs]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.dtype in (np.longdouble, np.clongdouble):
            # the padding of extended numbers is arbitrary
            return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) |
                (np.isnan(a) & np.isnan(b))))
        return (a.shape == b.shape and a.dtype == b.dtype
            and a.tobytes() == b.tobytes() if a.dtype != object
            else a.shape == b.shape and list(a.ravel()) == list(b.ravel()))
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


def spat(c, nt='pick', fill='pick', dated=True, nlat=None, nlon=None,
        masked=True, start=4, step=3):
    """random spatial object; nt None means a single field"""
    nlat = c.int(2, 9) if nlat is None else nlat
    nlon = (nlat if c.chance(.2) else c.int(2, 9)) if nlon is None else nlon
    nt = c.pick(None, 1, c.int(2, 6)) if nt == 'pick' else nt
    fill = c.pick(None, -9999.0, np.nan, 1e20) if isinstance(fill, str) else fill
    s = g.spatial(fill_value=fill)
    dlon, dlat = 360.0/nlon, 180.0/nlat
    s.lon = dlon/2 + dlon*np.arange(nlon)
    s.lat = 90 - dlat/2 - dlat*np.arange(nlat)
    if c.chance(.3):
        s.lat = s.lat[::-1].copy()
    shape = (nlat, nlon) if nt is None else (nlat, nlon, nt)
    s.data = c.rng.standard_normal(shape)*c.pick(1.0, 100.0)
    s.mask = np.zeros(shape, dtype=bool)
    if masked and c.chance(.7):
        s.mask |= c.rng.random(shape) < c.pick(.1, .4)
        if nt is not None and c.chance(.5):
            s.mask |= (c.rng.random(shape[:2]) < .2)[:, :, None]
    if fill is not None:
        s.data[s.mask] = fill
    if dated:
        if nt is None:
            m = c.int(start, 240)
            s.month = np.int64(m)
            s.time = np.float64(2002 + (m-0.5)/12)
        else:
            m = start + np.cumsum(c.rng.integers(1, step+1, nt))
            s.month = m.astype(np.int64)
            s.time = 2002 + (m-0.5)/12
    return s
