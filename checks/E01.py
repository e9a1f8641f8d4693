"""E01: requests that cannot be met are refused."""
import copy
import gzip
import io
import os
import pathlib
import string

import numpy as np

import gravity_toolkit as g
from rv.core import Check
from rv.objs import harm, spat, snap, same
from rv.watch import quiet

U = g.utilities
TS = g.time_series
check = Check('E01', 'each case draws a request that can be met and one that differs from '
    'it only in what the toolkit does not have (a choice outside the documented ones, a '
    'file, month, date or index that does not exist, sizes that do not agree, a cut file, '
    'an input that is left out); the monitor observes that the first is answered, that the '
    'second raises, that it changed neither its arguments nor the files around, and that '
    'the first is answered as before afterwards',
    ['any exception is accepted as a refusal', 'choices are compared without regard to case'])
LOVE = {}


def love(L):
    if L not in LOVE:
        LOVE[L] = tuple(np.array(x) for x in g.load_love_numbers(L))
    return LOVE[L]


def word(c, *valid):
    """a name that is none of the valid ones, often nearly one"""
    known = {v.lower() for v in valid if isinstance(v, str)}
    names = [v for v in valid if isinstance(v, str)] or ['name']
    while True:
        v = c.pick(*names)
        k = c.int(0, 5)
        w = (v+c.pick('x', '2', '_', ' ', '.') if k == 0 else v[:-1] if k == 1 else
            c.pick('x', '_', ' ')+v if k == 2 else v[::-1] if k == 3 else
            v+v if k == 4 else ''.join(c.pick(*string.ascii_letters)
            for _ in range(c.int(3, 8))))
        if w and w.lower() not in known:
            return w


def files(path):
    """all files below a folder with their bytes"""
    return {str(p): p.read_bytes() if p.is_file() else None
        for p in sorted(pathlib.Path(path).rglob('*'))}


def plain(r):
    """a result that can be compared"""
    if isinstance(r, zip):
        return list(r)
    if isinstance(r, np.lib.npyio.NpzFile):
        return dict(r)
    return r


def refuse(c, name, good, bad, *objs, empty=False):
    """the request is refused, without effects"""
    with quiet():
        first = snap(plain(good()))
    if not empty:
        c.ok(first[0] != ('v', None), name+'-answered', 'a valid request had no answer')
    tmp = c.scratch()
    before, held = files(tmp), snap(*objs)
    got = None
    try:
        with quiet():
            got = bad()
    except Exception as e:
        c.ok(True, name+'-refused')
        c.check.observed[f'error:{type(e).__name__}'] += 1
    else:
        c.ok(False, name+'-refused', 'a request that cannot be met was answered',
            got=repr(got)[:200])
    c.ok(same(held, snap(*objs)), name+'-unchanged',
        'a refused request changed its arguments')
    after = files(tmp)
    c.eq(sorted(after), sorted(before), name+'-no-files')
    c.ok(all(after[k] == v for k, v in before.items()), name+'-same-files')
    with quiet():
        c.ok(same(first, snap(plain(good()))), name+'-again',
            'a refused request changed the answer to later ones')


CASES = {}


def case(fn):
    CASES[fn.__name__.replace('_', '-')] = fn
    return fn


def code(c):
    return c.pick(7, 8, 99, -1, -2, -7, -8, c.int(8, 1000), -c.int(1, 50))


@case
def units_load(c):
    L = c.int(2, 10)
    n = c.int(1, 4)
    lon, lat, d = c.rng.uniform(0, 360, n), c.rng.uniform(-80, 80, n), c.rng.random(n)
    fn = c.pick('point', 'disc', 'cap', 'stokes')
    u = c.pick(code(c), 'furlong', 1.5, None, (1,))
    c.note(fn=fn, units=repr(u))
    if fn == 'point':
        f = lambda u: g.gen_point_load(d, lon, lat, LMAX=L, UNITS=u, LOVE=love(L))
    elif fn == 'disc':
        f = lambda u: g.gen_disc_load(d[0], lon[0], lat[0], 1e5, LMAX=L, UNITS=u, LOVE=love(L))
    elif fn == 'cap':
        f = lambda u: g.gen_spherical_cap(d[0], lon[0], lat[0], RAD_KM=300, LMAX=L,
            UNITS=u, LOVE=love(L))
    else:
        s = spat(c, nt=None, fill=None, masked=False)
        f = lambda u: g.gen_stokes(s.data.T, s.lon, s.lat, LMIN=0, LMAX=L, UNITS=u,
            LOVE=love(L))
    return lambda: f(1), lambda: f(u), (lon, lat, d)


@case
def units_sum(c):
    L = c.int(2, 10)
    h = harm(c, L=L, M=L, nt=None)
    lon, lat = c.rng.uniform(0, 360, 4), c.rng.uniform(-80, 80, 4)
    fn = c.pick(g.stokes_summation, g.clenshaw_summation)
    u = c.pick(code(c), word(c, 'norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU',
        'mmwe', 'Pa', 'mVCU', 'cmwe_ne', 'cmCU', 'cmGH', 'mGal'), 1.5, None)
    f = lambda u: fn(h.clm, h.slm, lon, lat, LMAX=L, UNITS=u, LOVE=love(L))
    c.note(fn=fn.__name__, units=repr(u))
    return lambda: f(c_(0, 1, 'cmwe', k=L)), lambda: f(u), (h, lon, lat)


def c_(*v, k):
    return v[k % len(v)]


@case
def units_kernel(c):
    L = c.int(3, 10)
    a = [c.rng.standard_normal((L+1, L+1)) for _ in range(4)]
    u = code(c)
    c.note(units=u)
    f = lambda u: g.gen_averaging_kernel(*a, .1, 400, LMAX=L, UNITS=u, LOVE=love(L))
    return lambda: f(c_(0, 1, k=L)), lambda: f(u), a


@case
def units_names(c):
    L = c.int(1, 20)
    k = c.int(0, 3)
    w = word(c, 'norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU', 'mmwe', 'Pa',
        'mVCU', 'cmGH', 'cmCU')
    u = c.pick(code(c), w, 1.5, None)
    c.note(kind=k, units=repr(u))
    if k == 0:
        return lambda: g.units.bycode(L % 7), lambda: g.units.bycode(u), ()
    if k == 1:
        # attributes, methods and constants are no unit names
        return lambda: g.units.get_attributes('cmwe'), lambda: g.units.get_attributes(w), ()
    o = g.units(lmax=L)
    o = o.harmonic(*love(L)) if k == 2 else o.spatial(*love(L))
    return lambda: o.get('cmwe'), lambda: o.get(w), (o,)


@case
def love_choices(c):
    L = c.int(1, 50)
    k = c.int(0, 3)
    frame = word(c, 'CF', 'CM', 'CE')
    c.note(kind=k, L=L)
    if k == 0:
        f = lambda v: g.load_love_numbers(L, REFERENCE=v)
        return lambda: f(c_('CF', 'CM', 'CE', k=L)), lambda: f(frame), ()
    if k == 1:
        v = c.pick(-1, 5, 6, 17, -3)
        f = lambda v: g.load_love_numbers(L, LOVE_NUMBERS=v)
        return lambda: f(L % 5), lambda: f(v), ()
    if k == 2:
        v = word(c, 'dict', 'tuple', 'zip', 'class')
        c.note(format=v)
        f = lambda v: g.load_love_numbers(L, FORMAT=v)
        return lambda: f(c_('dict', 'tuple', k=L)), lambda: f(v), ()
    o = g.load_love_numbers(L, FORMAT='class')
    c.note(frame=frame)
    return (lambda: copy.deepcopy(o).transform('CM').hl), lambda: o.transform(frame), (o,)


@case
def legendre_method(c):
    L = c.int(1, 12)
    x = c.rng.uniform(-1, 1, 5)
    v = word(c, 'holmes', 'colombo', 'mohlenkamp')
    c.note(method=v)
    f = lambda v: g.associated_legendre(L, x, method=v)
    return lambda: f(c_('holmes', 'colombo', 'mohlenkamp', k=L)), lambda: f(v), (x,)


@case
def transform_method(c):
    L = c.int(1, 6)
    lat = np.arange(90, -91, -10.)
    lon = np.arange(0, 361, 20.)
    d = c.rng.standard_normal((len(lon), len(lat)))
    v = word(c, 'integration', 'fourier')
    c.note(method=v)
    f = lambda v: g.gen_harmonics(d, lon, lat, LMAX=L, METHOD=v)
    return lambda: f(c_('integration', 'fourier', k=L)), lambda: f(v), (d, lon, lat)


@case
def gia_type(c):
    L = c.int(2, 6)
    p = os.path.join(c.scratch(), 'gia.txt')
    harm(c, L=L, M=L, nt=None, dated=False).to_ascii(p, date=False)
    v = word(c, 'IJ05-R2', 'W12a', 'SM09', 'ICE6G', 'ICE6G-D', 'Wu10', 'AW13-ICE6G',
        'AW13-IJ05', 'Caron', 'ascii', 'netCDF4', 'HDF5')
    c.note(GIA=v)
    o = c.chance(.5)
    f = lambda v: g.gia(lmax=L).from_GIA(p, GIA=v) if o else g.read_GIA_model(p, GIA=v, LMAX=L)
    return lambda: snap(f('ascii'))[0], lambda: f(v), ()


FORMATS = ('ascii', 'netCDF4', 'HDF5')


def stored(c, n=1):
    """an object of either class, how to make an empty one, and a writer"""
    h = c.chance(.5)
    o = harm(c, nt=n) if h else spat(c, nt=n, fill=-9999.0)
    if not h:
        o.lat = np.sort(o.lat)
    return o, (g.harmonics if h else g.spatial)


def grid(o):
    """what the reader of text grids has to know"""
    return dict(spacing=[float(o.lon[1]-o.lon[0]), float(abs(o.lat[1]-o.lat[0]))],
        nlat=len(o.lat), nlon=len(o.lon), extent=[float(o.lon.min()), float(o.lon.max()),
        float(o.lat.min()), float(o.lat.max())])


@case
def format_write(c):
    o, cls = stored(c, None)
    v = word(c, *FORMATS)
    tmp = c.scratch()
    k = c.pick('file', 'index')
    c.note(cls=cls.__name__, format=v, kind=k)
    if k == 'index':
        o, cls = stored(c, c.int(2, 4))
        n = np.shape(o.time)[0]
        names = [os.path.join(tmp, f'f{i}') for i in range(n)]
        fmt = c.pick(*FORMATS)
        # a list that exists keeps its contents
        index = os.path.join(tmp, 'index.txt')
        f = lambda v: o.to_index(index, names, format=v)

        def good():
            f(fmt)
            return open(index).read()
        return good, lambda: f(v), (o,)
    p = os.path.join(tmp, 'out')
    fmt = c.pick(*FORMATS)

    def good():
        o.to_file(p, format=fmt)
        return os.path.getsize(p) > 0
    return good, lambda: o.to_file(os.path.join(tmp, 'other'), format=v), (o,)


@case
def format_read(c):
    fmt = c.pick(*FORMATS)
    v = word(c, *FORMATS, 'gfc', 'SHM')
    tmp = c.scratch()
    k = c.pick('file', 'index')
    o, cls = stored(c, None)
    p = os.path.join(tmp, 'data.x')
    o.to_file(p, format=fmt)
    kw = {}
    if cls is g.spatial and fmt == 'ascii':
        kw = grid(o)
    c.note(cls=cls.__name__, format=v, stored=fmt, kind=k)
    if k == 'index':
        q = os.path.join(tmp, 'list.txt')
        with open(q, 'w') as f:
            f.write(p+'\n')
        f = lambda v: cls().from_index(q, format=v, **kw)
    else:
        f = lambda v: cls().from_file(p, format=v, **kw)
    return lambda: np.array(getattr(f(fmt), 'clm' if cls is g.harmonics else 'data')), \
        lambda: f(v), ()


@case
def months_absent(c):
    k = c.pick('harmonics', 'spatial')
    o = harm(c, nt=c.int(2, 6)) if k == 'harmonics' else spat(c, nt=c.int(2, 6))
    have = [int(m) for m in o.month]
    lost = [m for m in range(1, 300) if m not in have]
    bad = [c.pick(*have) for _ in range(c.int(0, 3))]+[c.pick(*lost)
        for _ in range(c.int(1, 2))]
    bad = [bad[i] for i in c.rng.permutation(len(bad))]
    bad = bad[0] if len(bad) == 1 and c.chance(.5) else \
        c.pick(list, np.array, tuple)(bad)
    good = [have[i] for i in np.sort(c.rng.permutation(len(have))[:2])]
    c.note(cls=k, have=have, bad=repr(bad))
    return lambda: o.subset(good).month, lambda: o.subset(bad), (o,)


@case
def index_beyond(c):
    k = c.pick('harmonics', 'spatial', 'mean-h', 'mean-s')
    n = c.int(2, 6)
    o = harm(c, nt=n) if 'h' in k[:1]+k[-1:] and k != 'spatial' else spat(c, nt=n)
    i = c.pick(n, n+1, -n-1, 50)
    c.note(kind=k, n=n, i=i)
    if k.startswith('mean'):
        f = lambda i: snap(o.mean(indices=np.array([0, i])))
    else:
        f = lambda i: snap(o.index(i))
    return lambda: f(n-1), lambda: f(i), (o,)


@case
def sizes(c):
    """inputs that do not belong together"""
    k = c.pick('clenshaw', 'harmonics', 'stokes', 'fourier', 'regress', 'destripe', 'add',
        'multiply', 'points')
    L = c.int(2, 6)
    c.note(kind=k)
    if k == 'clenshaw':
        h = harm(c, L=L, nt=None)
        n = c.int(2, 6)
        lon, lat = c.rng.uniform(0, 360, n), c.rng.uniform(-80, 80, n)
        m = c.pick(*[i for i in range(1, n)])
        f = lambda a, b: g.clenshaw_summation(h.clm, h.slm, a, b, LMAX=L, LOVE=love(L))
        bad = (lambda: f(lon, lat[:m])) if c.chance(.5) else lambda: f(lon[:m], lat)
        return lambda: f(lon, lat), bad, (h, lon, lat)
    if k in ('harmonics', 'stokes', 'fourier'):
        lat = np.arange(90, -91, -10.)
        lon = np.arange(0, 361, 20.)
        d = c.rng.standard_normal((len(lon), len(lat)))
        if k == 'harmonics':
            f = lambda d, a, b: g.gen_harmonics(d, a, b, LMAX=L)
        elif k == 'fourier':
            f = lambda d, a, b: g.gen_harmonics(d, a, b, LMAX=L, METHOD='fourier')
        else:
            f = lambda d, a, b: g.gen_stokes(d, a, b, LMAX=L, UNITS=1, LOVE=love(L))
        n = c.int(2, len(lat)-1)
        return lambda: f(d, lon, lat), lambda: f(d, lon, lat[:n]), (d, lon, lat)
    if k == 'regress':
        n = c.int(20, 40)
        t, y = 2003+np.arange(n)/12, c.rng.standard_normal(n)
        m = c.int(5, n-1)
        return lambda: TS.regress(t, y), lambda: TS.regress(t, y[:m]), (t, y)
    if k == 'destripe':
        h = harm(c, L=c.int(12, 16), nt=None)
        f = lambda a, b: g.destripe_harmonics(a, b, LMAX=int(h.lmax))
        return lambda: f(*full(h)), lambda: f(h.clm[:, 0], h.slm[:, 0]), (h,)
    if k == 'points':
        n = c.int(3, 6)
        lon, lat, d = c.rng.uniform(0, 360, n), c.rng.uniform(-80, 80, n), c.rng.random(n)
        f = lambda d, a, b: g.gen_point_load(d, a, b, LMAX=L, UNITS=1, LOVE=love(L))
        return lambda: f(d, lon, lat), lambda: f(d, lon, lat[:-1]), (lon, lat, d)
    a, b = harm(c, L=L, M=L, nt=4), harm(c, L=L, M=L, nt=3)

    def f(x):
        y = copy.deepcopy(a)
        return snap((y.add if k == 'add' else y.multiply)(x))
    return lambda: f(a), lambda: f(b), (a, b)


def full(h):
    L = int(h.lmax)
    C, S = np.zeros((L+1, L+1)), np.zeros((L+1, L+1))
    C[:, :h.mmax+1], S[:, :h.mmax+1] = h.clm, h.slm
    return C, S


@case
def grid_open(c):
    """a transform needs the full circle of longitudes"""
    h = harm(c, nt=None)
    L = int(h.lmax)
    n = c.pick(4, 8)*9
    lon = np.linspace(0, 360, n+1)
    lat = np.arange(80, -81, -20.)
    f = lambda x: g.harmonic_transform(h.clm, h.slm, x, lat, LMAX=L, MMAX=int(h.mmax))
    k = c.int(0, 3)
    bad = [lon[:-1], lon[1:], lon-180, lon/2][k]
    c.note(kind=k, n=n)
    return lambda: f(lon), lambda: f(bad), (h, lon, lat)


@case
def series_inputs(c):
    n = c.int(30, 50)
    t, y = 2003+np.arange(n)/12, c.rng.standard_normal(n)
    k = c.pick('weight-r', 'weight-p', 'break', 'window', 'order', 'frequency', 'range')
    c.note(kind=k, n=n)
    if k == 'weight-r':
        f = lambda **kw: TS.regress(t, y, WEIGHT=True, **kw)
        return lambda: f(DATA_ERR=np.ones(n)), lambda: f(), (t, y)
    if k == 'weight-p':
        f = lambda **kw: TS.piecewise(t, y, BREAKPOINT=n//2, WEIGHT=True, **kw)
        return lambda: f(DATA_ERR=np.ones(n)), lambda: f(), (t, y)
    if k == 'break':
        return lambda: TS.piecewise(t, y, BREAKPOINT=n//2), lambda: TS.piecewise(t, y), (t, y)
    if k == 'window':
        w = c.pick(2*c.int(1, 8), -c.int(1, 9), 0)
        f = lambda w: TS.savitzky_golay(t, y, WINDOW=w, ORDER=1)
        c.note(window=w)
        return lambda: f(7), lambda: f(w), (t, y)
    if k == 'order':
        w = 2*c.int(1, 5)+1
        o = c.int(w-1, w+3)
        c.note(window=w, order=o)
        f = lambda o: TS.savitzky_golay(t, y, WINDOW=w, ORDER=o)
        return lambda: f(1), lambda: f(o), (t, y)
    if k == 'frequency':
        return lambda: TS.lomb_scargle(t, y, OMEGA=[1., 9.], N=6), \
            lambda: TS.lomb_scargle(t, y, N=6), (t, y)
    w = c.pick([1.], [1., 2., 3.], np.arange(1., 6.))
    return lambda: TS.lomb_scargle(t, y, OMEGA=[1., 9.], N=6), \
        lambda: TS.lomb_scargle(t, y, OMEGA=w, N=6), (t, y, w)


@case
def cap_size(c):
    L = c.int(2, 8)
    f = lambda **kw: g.gen_spherical_cap(1., 30., 40., LMAX=L, UNITS=1, LOVE=love(L), **kw)
    kw = c.pick(dict(RAD_CAP=2.), dict(RAD_KM=200.), dict(AREA=1e14))
    c.note(size=kw)
    return lambda: f(**kw), lambda: f(), ()


@case
def epochs(c):
    y = c.int(1900, 2100)
    k = c.pick('units', 'format', 'julian', 'calendar')
    u = word(c, *[x+s for x in ('microsecond', 'millisecond', 'second', 'sec', 'minute',
        'min', 'hour', 'hr', 'day', 'microsec', 'millisec', 'usec', 'msec', 'usecond',
        'msecond', 'd', 'h', 'm', 's') for s in ('', 's')],
        'microsecs', 'millisecs', 'ms', 'us')
    u = u.strip().replace(' ', '') or 'q'
    c.note(kind=k, unit=u)
    good = f'days since {y}-01-01'
    if k == 'units':
        if u.lower() in ('', 'sec', 'second', 'seconds', 'minute', 'hour', 'day'):
            u = 'fortnights'
        return lambda: g.time.parse_date_string(good), \
            lambda: g.time.parse_date_string(f'lunar{u} since {y}-01-01'), ()
    if k == 'format':
        bad = c.pick(f'{y}-01-01', 'days since', f'days{y}')
        f = c.pick(g.time.parse_date_string, g.time.split_date_string) if \
            'since' not in bad else g.time.split_date_string
        if f is g.time.parse_date_string and bad == f'{y}-01-01':
            f = g.time.split_date_string
        c.note(bad=bad)
        return lambda: g.time.split_date_string(good), lambda: f(bad), ()
    if k == 'julian':
        jd = 2451545.+y
        v = word(c, 'dict', 'tuple', 'zip')
        f = lambda v: g.time.convert_julian(jd, format=v)
        c.note(format=v)
        return lambda: f(c_('dict', 'tuple', k=y)), lambda: f(v), ()
    e = c.pick((y, 13, 1), (y, 0, 1), (y, 2, 30), (y, 1, 32), (y, 1, 1, 25, 0, 0))
    f = lambda e: g.time.convert_delta_time(np.arange(3.), epoch1=e, epoch2=(2000, 1, 1))
    c.note(epoch=e)
    return lambda: f((y, 1, 1, 0, 0, 0)), lambda: f(e), ()


@case
def hashes(c):
    body = c.rng.bytes(c.int(0, 200))
    p = os.path.join(c.scratch(), 'x')
    pathlib.Path(p).write_bytes(body)
    v = word(c, 'md5', 'sha1', 'sha256', 'sha512', 'blake2b')
    b = c.chance(.5)
    f = lambda v: U.get_hash(io.BytesIO(body) if b else p, algorithm=v)
    c.note(algorithm=v, buffer=b)
    return lambda: f('md5'), lambda: f(v), ()


@case
def products(c):
    """patterns of files and names of data sets"""
    k = c.pick('center', 'product', 'mission', 'short')
    centers, sets = ('CSR', 'GFZ', 'JPL', 'GRAZ', 'CNES', 'COSTG', 'GSFC', 'Swarm', 'GFZOP',
        'GFZ'), ('GSM', 'GAC', 'GAD', 'GAA', 'GAB')
    f = lambda p='CSR', d='GSM', **kw: U.compile_regex_pattern(p, 'RL06', d, **kw).pattern
    if k == 'center':
        v = word(c, *centers)
        bad = lambda: f(p=v)
    elif k == 'product':
        v = word(c, *sets)
        bad = lambda: f(d=v)
    elif k == 'mission':
        v = word(c, 'GRACE', 'GRACE-FO', 'GRAC', 'GRFO')
        bad = lambda: f(mission=v)
    else:
        v = word(c, 'grace', 'grace-fo')
        bad = lambda: U.cmr_product_shortname(v, 'CSR', 'RL06')
        c.note(kind=k, value=v)
        return lambda: U.cmr_product_shortname('grace', 'CSR', 'RL06'), bad, ()
    c.note(kind=k, value=v)
    return f, bad, ()


@case
def laser_names(c):
    """the layout of a laser ranging file follows from its name"""
    fn = c.pick('C30', 'C40', 'C50', 'fields')
    p = pathlib.Path(c.scratch())
    name = c.pick('C30_LARES_filtered.txt', 'TN-14_C30_C20_GSFC_SLR.txt') if fn == 'C30' \
        else None
    bad = p/(c.pick('notes', 'data', 'readme', 'Ylms')+c.pick('.txt', '.dat', ''))
    bad.write_text('2003.1 1.0 2.0\n2003.2 1.5 2.5\n')
    c.note(fn=fn)
    f = g.read_SLR_harmonics if fn == 'fields' else getattr(g.SLR, fn)
    good = p/f'{fn if fn != "fields" else "C40"}_LARES_filtered.txt'
    good.write_text('  time   value\n2003.1 1.0 0.0\n2003.2 1.5 0.0\n')
    h = getattr(g.SLR, fn if fn != 'fields' else 'C40')
    return lambda: h(str(good))['data'], lambda: f(str(bad)), ()


def gone(c, p):
    """a path at which there is nothing"""
    p = pathlib.Path(p)
    k = c.int(0, 3)
    q = [p.with_name('other-'+p.name), p.parent/'none'/p.name, p.with_name(p.name+'.1'),
        p/p.name][k]
    return c.pick(str, pathlib.Path)(q)


@case
def no_file(c):
    o, cls = stored(c, None)
    fmt = c.pick(*FORMATS)
    p = os.path.join(c.scratch(), 'stored.x')
    o.to_file(p, format=fmt)
    k = c.pick('direct', 'file', 'index', 'love', 'mask', 'gia', 'listed')
    kw = {}
    if cls is g.spatial and fmt == 'ascii':
        kw = grid(o)
    q = gone(c, p)
    c.note(kind=k, cls=cls.__name__, format=fmt, path=str(q).replace(c.scratch(), ''))
    val = lambda r: np.array(getattr(r, 'clm' if cls is g.harmonics else 'data'))
    if k in ('direct', 'file'):
        f = (lambda x: getattr(cls(), 'from_'+fmt)(x, **kw)) if k == 'direct' else \
            lambda x: cls().from_file(x, format=fmt, **kw)
        return lambda: val(f(p)), lambda: f(q), ()
    if k in ('index', 'listed'):
        i = os.path.join(c.scratch(), 'index.txt')
        pathlib.Path(i).write_text(p+'\n')
        f = lambda x: cls().from_index(x, format=fmt, **kw)
        if k == 'listed':
            j = os.path.join(c.scratch(), 'index2.txt')
            pathlib.Path(j).write_text(f'{p}\n{q}\n')
            return lambda: val(f(i)), lambda: f(j), ()
        return lambda: val(f(i)), lambda: f(gone(c, i)), ()
    if k == 'love':
        t = U.get_data_path(['data', 'love_numbers'])
        f = lambda x: g.read_love_numbers(x, LMAX=10)
        return lambda: f(t), lambda: f(q), ()
    if k == 'mask':
        f = c.pick(g.ocean_stokes, g.land_stokes)
        return lambda: True, lambda: f(q, 4), ()
    return lambda: snap(g.read_GIA_model(None, GIA=None, LMAX=4)), \
        lambda: g.read_GIA_model(q, GIA=c_('IJ05-R2', 'ICE6G', 'W12a', 'ascii', 'Caron',
        k=len(fmt))), ()


@case
def cut_file(c):
    """compressed and structured files that end too early"""
    o, cls = stored(c, None)
    fmt, comp = c.pick(('ascii', 'gzip'), ('netCDF4', None), ('HDF5', None),
        ('netCDF4', 'gzip'), ('HDF5', 'gzip'))
    p = os.path.join(c.scratch(), 'stored.x')
    o.to_file(p, format=fmt)
    body = pathlib.Path(p).read_bytes()
    kw = {}
    if comp:
        body = gzip.compress(body)
        p += '.gz'
        pathlib.Path(p).write_bytes(body)
        kw['compression'] = 'gzip'
    if cls is g.spatial and fmt == 'ascii':
        kw.update(grid(o))
    q = os.path.join(c.scratch(), 'cut.x'+('.gz' if comp else ''))
    n = len(body) if comp == 'gzip' else len(body)*3//4
    n = c.pick(1, 12, n//2, c.int(1, n-1))
    pathlib.Path(q).write_bytes(body[:n])
    c.note(cls=cls.__name__, format=fmt, compression=comp, kept=n, size=len(body))
    f = lambda x: np.array(getattr(getattr(cls(), 'from_'+fmt)(x, **kw),
        'clm' if cls is g.harmonics else 'data'))
    return lambda: f(p), lambda: f(q), ()


@case
def no_variable(c):
    """files without the variable that is asked for"""
    s = spat(c, nt=None, fill=-9999.0)
    fmt = c.pick('netCDF4', 'HDF5')
    p = os.path.join(c.scratch(), 'stored.x')
    s.to_file(p, format=fmt, varname='water')
    v = word(c, 'water', 'lon', 'lat', 'time')
    which = c.pick('varname', 'lonname', 'latname', 'timename')
    kw = dict(varname='water')
    c.note(format=fmt, which=which, name=v)
    f = lambda **k: getattr(g.spatial(), 'from_'+fmt)(p, **{**kw, **k}).data
    return lambda: f(), lambda: f(**{which: v}), ()


@case
def no_module(c):
    v = word(c, 'numpy', 'scipy')
    v = 'no_such_'+v.strip().replace('.', '').replace(' ', '')
    c.note(module=v)
    bad = c.pick(lambda: U.import_dependency(v, raise_exception=True),
        lambda: U.import_dependency(3), lambda: U.import_dependency(None),
        lambda: U.import_dependency(v).anything)
    return lambda: U.import_dependency('numpy').__name__, bad, ()


@case
def geocenter_order(c):
    m = c.int(0, 1)
    G = g.geocenter()
    n = c.int(2, 5)
    G.C10, G.C11, G.S11 = c.rng.standard_normal((3, n))
    G.time, G.month = 2003+np.arange(n)/12, np.arange(13, 13+n)
    v = c.pick(word(c, 'C10', 'C11', 'S11', 'X', 'Y', 'Z', 'time', 'month', 'casename',
        'filename', 'radius', 'center'))
    c.note(name=v, m=m)
    return lambda: np.array(G.get('C10')), lambda: G.get(v), (G,)


for NAME, FN in CASES.items():
    def section(c, fn=FN, name=NAME):
        got = fn(c)
        refuse(c, name, got[0], got[1], *got[2])
    section.__name__ = NAME
    check.section(NAME, quick=30, thorough=900)(section)
