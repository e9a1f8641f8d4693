"""X10: programs that show grids on maps."""
import contextlib
import os
import numpy as np
import PIL.Image
from rv.core import Check
from rv import prog

check = Check('X10', 'each case writes a generated grid (and shapefiles), runs a map '
    'program and compares the contents of the figure at the moment it is saved (or of '
    'every frame a movie writer is given) with the grid interpolated independently at '
    'the place of every pixel, and with the projected outlines', [])

PLANE, SOUTH, NORTH = 'plane', 'south', 'north'


def crs(which):
    """projections: plate carree, EPSG 3031 and EPSG 3413"""
    import cartopy.crs as ccrs
    if which == SOUTH:
        return ccrs.Stereographic(central_latitude=-90.0, central_longitude=0.0,
            true_scale_latitude=-71.0)
    if which == NORTH:
        return ccrs.Stereographic(central_latitude=90.0, central_longitude=-45.0,
            true_scale_latitude=70.0)
    return ccrs.PlateCarree()


def project(which, lon, lat):
    """coordinates of places in a projection"""
    return crs(which).transform_points(crs(PLANE), np.asarray(lon, float),
        np.asarray(lat, float))[..., :2]


def places(which, x, y):
    """longitudes and latitudes of coordinates in a projection"""
    p = crs(PLANE).transform_points(crs(which), np.asarray(x, float), np.asarray(y, float))
    return p[..., 0], p[..., 1]


def contents(fig):
    """what the figure shows"""
    import matplotlib.offsetbox as box
    out = []
    for ax in fig.axes:
        if not hasattr(ax, 'projection'):
            continue
        a = dict(title=ax.get_title(), limits=(*ax.get_xlim(), *ax.get_ylim()),
            images=[], contours=[], lines=[],
            labels=[b.txt.get_text() for b in ax.findobj(box.AnchoredText)],
            texts=[(t.get_text(), *t.get_position()) for t in ax.texts])
        for im in ax.get_images():
            bar = im.colorbar
            n = im.norm
            a['images'].append(dict(array=np.ma.array(im.get_array(), copy=True),
                extent=tuple(im.get_extent()), origin=im.origin, alpha=im.get_alpha(),
                cmap=np.array(im.get_cmap()(np.linspace(0, 1, 64))),
                bounds=None if not hasattr(n, 'boundaries') else list(n.boundaries),
                range=(n.vmin, n.vmax),
                bar=None if bar is None else dict(extend=bar.extend,
                    ticks=np.array(bar.get_ticks()),
                    labels=[t.get_text() for t in (bar.ax.get_xticklabels()
                        if bar.orientation == 'horizontal' else bar.ax.get_yticklabels())],
                    words=[bar.ax.get_title(), bar.ax.get_xlabel(), bar.ax.get_ylabel()])))
        for s in ax.collections:
            if hasattr(s, 'levels'):
                a['contours'].append((np.array(s.levels, float).tolist(),
                    np.round(np.atleast_2d(s.get_edgecolor())[0, :3], 3).tolist()))
        inverse = ax.transData.inverted()
        for line in ax.get_lines():
            xy = np.column_stack([line.get_xdata(orig=False), line.get_ydata(orig=False)])
            # places of the vertices in the projection of the map
            a['lines'].append(inverse.transform(line.get_transform().transform(
                xy.astype(float))))
        out.append(a)
    return out


SIZES = {}
MAGIC = {'png': b'\x89PNG\r\n\x1a\n', 'jpg': b'\xff\xd8\xff', 'pdf': b'%PDF', 'svg': b'<?xml'}


@contextlib.contextmanager
def watch():
    """figures at the moment they are saved, movies at every frame"""
    import matplotlib.animation as animation
    from matplotlib.figure import Figure
    save, seen = Figure.savefig, {}

    def savefig(fig, fname, *args, **kw):
        save(fig, fname, *args, **kw)
        seen[os.path.abspath(str(fname))] = contents(fig)
        SIZES[os.path.abspath(str(fname))] = fig.get_size_inches()

    class Recorder(animation.AbstractMovieWriter):
        @classmethod
        def isAvailable(cls):
            return True

        def __init__(self, *args, **kw):
            super().__init__(fps=kw.get('fps', 5))

        def setup(self, fig, outfile, dpi=None):
            super().setup(fig, outfile, dpi=dpi)
            open(outfile, 'wb').close()
            self.frames = seen[os.path.abspath(str(outfile))] = []

        def grab_frame(self, **kw):
            self.frames.append(contents(self.fig))

        def finish(self):
            pass

    registry = animation.writers._registered
    ffmpeg = registry.get('ffmpeg')
    Figure.savefig, registry['ffmpeg'] = savefig, Recorder
    try:
        yield seen
    finally:
        Figure.savefig = save
        if ffmpeg is None:
            del registry['ffmpeg']
        else:
            registry['ffmpeg'] = ffmpeg


def shapes(path, parts, records):
    """polygons in a shapefile"""
    import shapefile
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with shapefile.Writer(path, shapeType=shapefile.POLYGON) as w:
        w.field('FIRST', 'C')
        w.field('SECOND', 'C')
        for p, r in zip(parts, records):
            w.poly([q.tolist() for q in p])
            w.record(*r)


def ring(c, x, y, r):
    """a closed outline (clockwise as shapefiles have them)"""
    t = -np.linspace(0, 2*np.pi, c.int(5, 12))
    s = r*c.rng.uniform(.6, 1, len(t))
    s[-1] = s[0]
    q = np.round(np.column_stack([x+s*np.cos(t), y+s*np.sin(t)]), 4)
    q[-1] = q[0]
    return q


def rings(c, n, box, r, parts=1):
    return [[ring(c, c.rng.uniform(*box[:2]), c.rng.uniform(*box[2:]), r)
        for _ in range(c.int(1, parts))] for _ in range(n)]


LAND = (-170, 170, -60, 84)
METERS = dict(south=(-2e6, 2e6, -2e6, 2e6), north=(-1e6, 1e6, -3e6, -5e5))


def coastlines(c, base):
    """outlines of land in degrees"""
    out = []
    for name in ('GSHHS_i_L1_no_greenland.shp', 'greenland_coastline_islands.shp'):
        s = rings(c, c.int(1, 4), LAND, 5)
        shapes(os.path.join(base, 'masks', 'G250', name), s, [('x', 'y')]*len(s))
        out += s
    return [(PLANE, q) for s in out for q in s]


def grounded(c, base, which):
    """outlines of ice in meters, the ice sheet first"""
    path = dict(south=('IceBoundaries_Antarctica_v02', 'ant_ice_sheet_islands_v2.shp'),
        north=('GIMP', 'grn_ice_sheet_peripheral_glaciers.shp'))[which]
    s = rings(c, c.int(2, 6) if which == SOUTH else c.int(30, 33), METERS[which], 1e5)
    shapes(os.path.join(base, 'masks', *path), s, [('x', 'y')]*len(s))
    return [(which, q) for p in s for q in p]


def inventory(c, base):
    """outlines of glaciers around Greenland"""
    out = []
    for f in ('03_rgi60_ArcticCanadaNorth', '04_rgi60_ArcticCanadaSouth',
            '06_rgi60_Iceland', '07_rgi60_Svalbard'):
        s = rings(c, c.int(30, 32), METERS[NORTH], 3e4)
        shapes(os.path.join(base, 'RGI', f, f'{f}_plot.shp'), s, [('x', 'y')]*len(s))
        out += s[:30]
    return [(NORTH, q) for s in out for q in s]


ANT = ['AAp', 'ApB', 'BC', 'CCp', 'CpD', 'DDp', 'DpE', 'EEp', 'EpFp', 'FpG', 'GH', 'HHp',
    'HpI', 'IIpp', 'IppJ', 'JJpp', 'JppK', 'KKp', 'KpA']
GRE = ['CE', 'CW', 'NE', 'NO', 'NW', 'SE', 'SW']


def basins(c, base, which, kind):
    """outlines of drainage basins"""
    box = METERS[which]
    if kind == 'Rignot':
        folder, name, regions = dict(south=('Rignot_ANT', 'basin_{}_index.ascii', ANT),
            north=('Rignot_GRE', 'divide_{}_index.ascii', GRE))[which]
        d = os.path.join(base, 'masks', folder)
        os.makedirs(d, exist_ok=True)
        out = []
        for r in regions:
            q = ring(c, c.rng.uniform(-150, 150), dict(south=-80, north=75)[which], 3)
            with open(os.path.join(d, name.format(r)), 'w') as f:
                for lon, lat in q:
                    print(*((lat, lon) if which == SOUTH else (lon, lat)), file=f)
            out.append((PLANE, q.astype('f').astype(float)))
        return out
    if kind == 'IMBIE-2' and which == SOUTH:
        names = [('West', 'A-Ap'), ('A-Ap', 'Islands'), ('East', 'Hp-I'), ('x', 'K-A')]
        s = rings(c, 4, box, 2e5, parts=3)
        shapes(os.path.join(base, 'masks', 'ANT_Basins_IMBIE2_v1.6',
            'ANT_Basins_IMBIE2_v1.6.shp'), s, names)
        return [(SOUTH, q) for p, n in zip(s, names) if n[1] != 'Islands' for q in p]
    if kind == 'IMBIE-2':
        names = [('CW', 'x'), ('ICE_CAP', 'NO'), ('SE', 'x'), ('NW', 'x')]
        s = rings(c, 4, (-60, -20, 62, 82), 2, parts=3)
        shapes(os.path.join(base, 'masks', 'GRE_Basins_IMBIE2_v1.3',
            'GRE_Basins_IMBIE2_v1.3.shp'), s, names)
        return [(PLANE, q) for p, n in zip(s, names) if n[0] != 'ICE_CAP' for q in p]
    if kind == 'IMBIE-2_subbasin':
        names = [('x', 'West'), ('x', 'Islands'), ('x', 'East'), ('y', 'Peninsula')]
        s = rings(c, 4, box, 2e5, parts=3)
        shapes(os.path.join(base, 'masks', 'Basins_20Oct2016_v1.7', 'Basins_v1.7.shp'),
            s, names)
        return [(SOUTH, q) for p, n in zip(s, names) if n[1] != 'Islands' for q in p]
    if kind == 'Amundsen':
        s = rings(c, 5, (-120, -90, -80, -70), 2)
        shapes(os.path.join(base, 'masks', 'Basins_Admunsen',
            'Basins_admunsen_match_coastline_and_IS.shp'), s, [('x', 'y')]*5)
        return [(PLANE, q) for p in s for q in p]
    return []


class Grid:
    """a global grid, smooth in space, with a value for every month"""
    def __init__(self, c, interpolation, time=0, form=None):
        self.c = c
        self.d = c.pick(2.0, 3.0, 5.0)
        self.e = c.pick(self.d, self.d, 4.0, 2.0)
        self.interval = c.pick(1, 2)
        self.form = form or c.pick('netCDF4', 'netCDF4', 'HDF5', 'ascii')
        h = 0 if self.interval == 1 else 1
        nx, ny = int(360/self.d)+1-h, int(180/self.e)+1-h
        self.lat = -90+self.e/2*h+self.e*np.arange(ny)
        self.lon = self.d/2*h+self.d*np.arange(nx)
        if c.chance(.4):
            self.lon = self.lon-180
        self.down = self.form != 'ascii' and c.chance(.25)
        if self.form == 'ascii' and self.lon[0] < 0:
            # text files have longitudes from zero
            self.lon = self.lon+180
        self.n = max(1, time)
        self.terms = c.rng.standard_normal((self.n, 5, 5))*10/(1+np.arange(5))
        self.phase = c.rng.uniform(0, 2*np.pi, (5, 5))
        x, y = np.meshgrid(self.lon, self.lat)
        self.data = self.smooth(x, y)
        if interpolation == 'nearest':
            # values with nothing in common with their neighbors
            self.data = c.rng.uniform(-15, 15, self.data.shape)
        if self.interval == 1:
            self.data[:, :, -1] = self.data[:, :, 0]
        self.mask = np.zeros(self.data.shape, bool)
        self.holes = interpolation != 'cubic' and self.form != 'ascii' and c.chance(.5)
        if self.holes:
            for _ in range(c.int(1, 6)):
                i, j = c.int(0, ny-3), c.int(0, nx-3)
                self.mask[:, i:i+c.int(1, 3), j:j+c.int(1, 3)] = True
            if self.interval == 1:
                edge = self.mask[:, :, 0] | self.mask[:, :, -1]
                self.mask[:, :, 0] = self.mask[:, :, -1] = edge

    def smooth(self, lon, lat):
        """a short series of smooth functions of position"""
        x, y = np.radians(lon), np.radians(lat)
        v = np.zeros((self.n, *np.shape(lon)))
        for a in range(5):
            for b in range(5):
                v += self.terms[:, a, b].reshape(-1, *[1]*np.ndim(lon)) * \
                    np.cos(a*x+self.phase[a, b])*np.cos(b*y+self.phase[b, a])
        return v

    def write(self, path, names, time=None):
        """stored with the names of the variables"""
        import netCDF4
        import h5py
        s = slice(None, None, -1) if self.down else slice(None)
        fill = -9999.0
        v = np.where(self.mask, fill, self.data)
        v = v[0] if time is None else np.moveaxis(v, 0, -1)
        v = v[s]
        lat = self.lat[s]
        if self.form == 'ascii':
            with open(path, 'w') as f:
                for i, y in enumerate(lat):
                    for j, x in enumerate(self.lon):
                        row = dict(lon=x, lat=y, z=v[i, j], data=v[i, j])
                        print(*(f'{row.get(n, 7.0):.8f}' for n in names), file=f)
            self.data = np.round(self.data, 8)
            return
        if self.form == 'netCDF4':
            with netCDF4.Dataset(path, 'w') as f:
                dims = dict(zip(names, (len(self.lon), len(lat))))
                for n, k in dims.items():
                    f.createDimension(n, k)
                if time is not None:
                    f.createDimension('time', len(time))
                    f.createVariable('time', 'f8', ('time',))[:] = time
                for n, x in zip(names, (self.lon, lat)):
                    f.createVariable(n, 'f8', (n,))[:] = x
                f.createVariable(names[2], 'f8', (names[1], names[0]) +
                    (() if time is None else ('time',)), fill_value=fill)[:] = v
            return
        with h5py.File(path, 'w') as f:
            for n, x in zip(names, (self.lon, lat, v)):
                f.create_dataset(n, data=x)
            f[names[2]].attrs['_FillValue'] = fill
            if time is not None:
                f.create_dataset('time', data=np.asarray(time, float))

    def options(self):
        return ['--spacing', self.d, self.c.pick(self.e, -self.e) if self.down else self.e,
            '--interval', self.interval]

    def mean(self, t=0):
        """averages of the valid values over the area of their cells; grids that
        have both ends of the circle may count them once or twice"""
        out = []
        for n in (len(self.lon), len(self.lon)-1):
            w = np.cos(np.radians(self.lat))[:, None]*~self.mask[t][:, :n]
            out.append(np.sum(w*self.data[t][:, :n])/np.sum(w))
        return out if self.interval == 1 else out[:1]

    def at(self, lon, lat, interpolation, t=0):
        """values at places: (value, valid, where both are certain)"""
        i = (np.asarray(lat)-self.lat[0])/self.e
        j = np.mod(np.asarray(lon)-self.lon[0], 360)/self.d
        nx, ny = len(self.lon), len(self.lat)
        sure = (i > 0) & (i < ny-1)
        # not across the edges of the map
        edge = 180-np.abs(np.mod(np.asarray(lon)+180, 360)-180)
        sure &= edge > (1.6*self.d if self.interval == 2 else 1e-6)
        if self.interval == 2:
            # the grid may start and end at either side of the first meridian
            sure &= (j > 0) & (j < nx-1)
        j = np.clip(j, 0, nx-1)
        i = np.clip(i, 0, ny-1)
        D, M = self.data[t], self.mask[t]
        if interpolation == 'cubic':
            sure &= (i > 2) & (i < ny-3) & (j > 2) & (j < nx-3) & (edge > 4*self.d)
            return self.smooth(lon, lat)[t], np.ones(np.shape(i), bool), sure
        if interpolation == 'nearest':
            a, b = np.rint(i).astype(int), np.rint(j).astype(int)
            sure &= (np.abs(np.abs(i-a)-.5) > 1e-6) & (np.abs(np.abs(j-b)-.5) > 1e-6)
            return D[a, b], ~M[a, b], sure
        a, b = np.minimum(i.astype(int), ny-2), np.minimum(j.astype(int), nx-2)
        u, w = i-a, j-b
        # on the lines of the grid the cells beyond have no weight, or none to speak of
        for f in (u, w):
            sure &= (np.abs(f-np.rint(f)) > 1e-6) | (not self.holes)
        v = (1-u)*((1-w)*D[a, b]+w*D[a, b+1])+u*((1-w)*D[a+1, b]+w*D[a+1, b+1])
        m = M[a, b] | M[a, b+1] | M[a+1, b] | M[a+1, b+1]
        return v, ~m, sure


def window(c, mod, which, region=None):
    """a part of the map, so that it takes less time"""
    full = METERS_FULL.setdefault(mod.__name__, {})
    for axis, size in (('x', c.int(120, 260)), ('y', c.int(100, 220))):
        lim = getattr(mod, f'{axis}limits', None)
        for name, key in ((f'region_{axis}limit', region or dict(south='S', north='N')[which]),):
            if isinstance(getattr(mod, name, None), dict):
                lim = getattr(mod, name).get(key)
        if not isinstance(lim, np.ndarray):
            continue
        lo, hi = full.setdefault((axis, region, which), tuple(int(v) for v in lim))
        a = 1000*c.int(int(lo/1000), int(hi/1000)-size)
        lim[:] = a, a+1000*size


METERS_FULL = {}


def style(c, names, maps=1, movie=False, ice=False):
    """options of the map and what they ask for"""
    s = dict(interpolation=c.pick('nearest', 'bilinear', 'bilinear', 'cubic'))
    argv = []
    s['factor'] = c.pick(1.0, 1.0, 2.5, -0.5, 100.0)
    if s['factor'] != 1.0:
        argv += ['--scale-factor', s['factor']]
    lo, n, step = c.int(-30, 5), c.int(2, 8), c.pick(1, 2, 5, .5)
    if c.chance(.6):
        s['range'] = (lo, lo+n*step)
        s['ticks'] = lo+step*np.arange(n+1)
        s['bounds'] = None
        argv += ['--plot-range', lo, lo+n*step, step]
    else:
        s['ticks'] = np.unique(np.round(c.rng.uniform(-50, 50, n+1), 1))
        s['bounds'] = s['ticks'].tolist()
        s['range'] = (s['ticks'][0], s['ticks'][-1])
        argv += ['--boundary', *s['bounds']]
    s['cmap'] = c.pick('viridis', 'jet', 'RdBu', 'magma')
    if s['cmap'] != 'viridis' or c.chance(.5):
        argv += ['--colormap', s['cmap']]
    s['alpha'] = c.pick(1.0, .5)
    if s['alpha'] != 1:
        argv += ['--alpha', s['alpha']]
    s['contours'] = []
    if c.chance(.4 if maps < 4 else .15):
        a, k, e = c.int(-4, 0), c.int(3, 6), c.pick(2, 5, .5)
        levels = a*e+e*np.arange(k)
        argv += ['--plot-contours', '--contour-range', a*e, a*e+(k-1)*e, e]
        s['contours'] = [levels[levels != 0].tolist(), [0.0]]
        s['mean'] = c.chance(.6)
        if s['mean']:
            argv += ['--mean-contour']
    words = ['Mass', 'trend', 'RL06', 'Ice', 'ocean', 'GSM', '2002']
    phrase = lambda: ' '.join(c.rng.permutation(words)[:c.int(1, 3)])
    s['titles'] = [phrase() for _ in range(maps)] if c.chance(.7) else None
    if s['titles']:
        argv += ['--plot-title', *s['titles']]
    s['labels'] = [f'{chr(97+i)}) {phrase()}' for i in range(maps)] if c.chance(.6) else None
    if s['labels']:
        argv += ['--plot-label', *s['labels']]
    s['extend'] = c.pick('both', 'min', 'max', 'neither')
    argv += ['--cbextend', s['extend']]
    s['words'] = [phrase(), c.pick('cm', 'mm', 'Gt')]
    argv += ['--cbtitle', s['words'][0], '--cbunits', s['words'][1]]
    s['format'] = c.pick('{0:0.0f}', '{0:0.2f}', '{0:+0.1f}')
    argv += ['--cbformat', s['format'], '--interpolation', s['interpolation']]
    if not movie and names != ['lon', 'lat', 'z']:
        argv += ['--variables', *names]
    if c.chance(.3):
        argv += ['--draw-grid-lines', '--grid-lines', c.int(10, 30), c.int(10, 30)]
    s['scale'] = ice and c.chance(.4)
    if s['scale']:
        argv += ['--draw-scale']
    argv += ['--figure-dpi', 30]
    return s, argv


def shown(c, axis, which, s, grid, curves, t=0, last=True):
    """one map: its pixels, colors, contours, outlines and words"""
    import matplotlib
    c.eq(len(axis['images']), 1, 'images')
    im = axis['images'][0]
    v = im['array']
    xmin, xmax, ymin, ymax = im['extent']
    c.eq(axis['limits'], (xmin, xmax, ymin, ymax), 'whole-map')
    ny, nx = v.shape
    X, Y = np.linspace(xmin, xmax, nx), np.linspace(ymin, ymax, ny)
    if im['origin'] != 'lower':
        Y = Y[::-1]
    c.ok(nx > 20 and ny > 20, 'pixels', got=v.shape)
    # a sample of pixels everywhere
    i, j = c.rng.integers(0, ny, 4000), c.rng.integers(0, nx, 4000)
    if grid.holes:
        # and around the places without values
        m = np.ma.getmaskarray(v).astype(int)
        e = np.zeros(m.shape, bool)
        e[:, 1:] |= np.diff(m, axis=1) != 0
        e[1:] |= np.diff(m, axis=0) != 0
        p, q = np.nonzero(e)
        k = c.rng.permutation(len(p))[:1000]
        i, j = np.r_[i, p[k]], np.r_[j, q[k]]
    lon, lat = places(which, X[j], Y[i])
    want, valid, sure = grid.at(lon, lat, s['interpolation'], t)
    got = v[i, j]
    c.check.observed['pixels'] += int(sure.sum())
    c.eq(np.ma.getmaskarray(got)[sure].tolist(), (~valid[sure]).tolist(), 'blank-pixels')
    ok = sure & valid
    c.close(np.ma.getdata(got)[ok], s['factor']*want[ok], 'pixels', rtol=0,
        atol=abs(s['factor'])*(.05 if s['interpolation'] == 'cubic' else 1e-6))
    c.close(im['cmap'], matplotlib.colormaps[s['cmap']](np.linspace(0, 1, 64)), 'colors',
        atol=.01)
    c.eq(im['bounds'], s['bounds'], 'boundaries')
    c.close(im['range'], s['range'], 'color-limits', rtol=1e-12)
    c.eq(1.0 if im['alpha'] is None else im['alpha'], s['alpha'], 'alpha')
    bar = im['bar']
    if last:
        c.ok(bar is not None, 'colorbar')
        c.close(bar['ticks'], s['ticks'], 'ticks', atol=1e-9)
        c.eq([b.replace('\N{MINUS SIGN}', '-') for b in bar['labels']],
            [s['format'].format(x) for x in s['ticks']], 'tick-labels')
        c.eq(bar['extend'], s['extend'], 'extend')
        c.eq(sorted(w for w in bar['words'] if w), sorted(s['words']), 'colorbar-words')
    # contours
    if s['contours']:
        want = list(s['contours'])
        if s['mean']:
            c.ok(len(axis['contours']) == 3, 'contours', got=axis['contours'])
            m = axis['contours'].pop()[0]
            c.ok(len(m) == 1 and any(abs(m[0]-s['factor']*x) < 1e-6*abs(s['factor'])*10
                for x in grid.mean(t)), 'mean-contour', got=m,
                want=[s['factor']*x for x in grid.mean(t)])
        c.eq([x[0] for x in axis['contours']], want, 'contours')
        c.ok(axis['contours'][0][1] != axis['contours'][1][1], 'contour-colors')
    else:
        c.eq(axis['contours'], [], 'contours')
    # outlines
    lines = list(axis['lines'])
    for kind, q in curves:
        p = q
        if kind != which:
            p = project(which, *(places(kind, q[:, 0], q[:, 1]) if kind != PLANE else
                (q[:, 0], q[:, 1])))
        tol = 1e-3*(1 if which == PLANE else 1e4)
        hit = [k for k, l in enumerate(lines) if l.shape == p.shape and
            np.max(np.abs(l-p)) < tol]
        c.ok(bool(hit), 'outline', kind=kind, want=p[:2], lines=[l[:1] for l in lines][:4])
        del lines[hit[0]]
    c.check.observed['outlines'] += len(curves)
    if s['scale'] and axis.get('scaled', True):
        n = [(float(x[0]), x[1]) for x in axis['texts'] if x[0].isdigit()]
        whole = [float(x[0].split()[0]) for x in axis['texts'] if x[0][:1].isdigit() and
            x[0].endswith(' km')]
        for k, x in n:
            c.close((x-n[0][1])/1000, k, 'scale', atol=.5)
        # the bar is as long as it says
        says = whole[0] if whole else n[-1][0] if n else None
        c.ok(says is not None, 'scale-text', got=axis['texts'])
        c.ok(bool(lines) and all(np.ptp(l[:, 0]) <= says*1000+600 for l in lines) and
            any(abs(np.ptp(l[:, 0])-says*1000) < 600 for l in lines), 'scale-length',
            says=says, lines=lines)
    else:
        c.eq(len(lines), 0, 'other-lines', lines=[l[:2] for l in lines])


def words(c, axes, s):
    """titles and labels of the maps"""
    dash = lambda x: x.replace('\N{EN DASH}', '-')
    c.eq([dash(a['title']) for a in axes], s['titles'] or ['']*len(axes), 'titles')
    c.eq([a['labels'] for a in axes], [[x] for x in s['labels']] if s['labels'] else
        [[]]*len(axes), 'labels')


def same_layout(c, g, grid):
    """another grid of values at the same places"""
    for k in ('d', 'e', 'interval', 'form', 'lat', 'lon', 'down'):
        setattr(g, k, getattr(grid, k))
    x, y = np.meshgrid(g.lon, g.lat)
    g.data = g.smooth(x, y) if not grid.random else c.rng.uniform(-15, 15, (1, *x.shape))
    if g.interval == 1:
        g.data[:, :, -1] = g.data[:, :, 0]
    g.mask = np.zeros(g.data.shape, bool)
    g.holes = False
    return g


def run_maps(c, name, which, maps, curves, base, ice=False, extra=(), form=None):
    """a program with a number of maps"""
    names = c.pick(['lon', 'lat', 'z'], ['longitude', 'latitude', 'lwe'])
    s, argv = style(c, names, maps=maps, ice=ice)
    grids = [Grid(c, s['interpolation'], form=form)]
    grids[0].random = s['interpolation'] == 'nearest'
    for _ in range(maps-1):
        grids.append(same_layout(c, Grid(c, s['interpolation'], form=grids[0].form), grids[0]))
    if grids[0].form == 'ascii' and names[0] != 'lon':
        at = argv.index('--variables')
        names = c.pick(['lat', 'lon', 'z'], ['lon', 'lat', 'data'])
        argv[at+1:at+4] = names
    paths = []
    for k, grid in enumerate(grids):
        paths.append(os.path.join(base, f'grid{k}'))
        grid.write(paths[-1], names)
    form = c.pick('png', 'png', 'jpg', 'pdf', 'svg')
    out = os.path.join(base, c.pick('figures', '.'), c.pick('map.', 'a.map.')+form)
    out = os.path.abspath(out)
    argv = ['--directory', base, *paths, *grids[0].options(), '--figure-file', out, *argv,
        *extra]
    if grids[0].form != 'netCDF4' or c.chance(.3):
        argv += ['--format', *[grids[0].form]*(c.pick(1, maps))]
    if form != 'png' or c.chance(.3):
        argv += ['--figure-format', form]
    mode = c.pick(None, '640', '600')
    if mode:
        argv += ['--mode', mode]
    dpi = argv[argv.index('--figure-dpi')+1] = c.pick(20, 30)
    c.note(program=name, figure=form, dpi=dpi, form=grids[0].form, interval=grids[0].interval, d=grids[0].d,
        e=grids[0].e, down=grids[0].down, lon0=float(grids[0].lon[0]),
        holes=grids[0].holes, interpolation=s['interpolation'], factor=s['factor'],
        contours=s['contours'])
    with watch() as seen:
        prog.run(c, name, argv)
    c.eq(list(seen), [out], 'figures')
    c.ok(open(out, 'rb').read(8).startswith(MAGIC[form]), 'format', f'{form}')
    if form in ('png', 'jpg'):
        with PIL.Image.open(out) as im:
            c.close(im.size, SIZES[out]*dpi, 'pixels', rtol=0, atol=1.1)
    c.eq(os.stat(out).st_mode & 0o777, int(mode or '775', base=8), 'mode')
    axes = seen[out]
    c.eq(len(axes), maps, 'maps')
    # the scale is drawn on one map of a kind
    c.eq(sum(any(x[0].endswith('km') for x in a['texts']) for a in axes),
        s['scale']*len(set(which if isinstance(which, tuple) else [which])), 'scales')
    for k, axis in enumerate(axes):
        axis['scaled'] = any(x[0].endswith('km') for x in axis['texts'])
        w = which[k] if isinstance(which, tuple) else which
        q = curves[k] if isinstance(which, tuple) else curves
        shown(c, axis, w, s, grids[k], q, last=k == maps-1)
    words(c, axes, s)


@check.section('global', quick=4, thorough=50)
def global_map(c):
    """a map of the world"""
    base = c.scratch()
    curves = coastlines(c, base)+grounded(c, base, SOUTH)
    run_maps(c, 'plot_global_grid_maps', PLANE, 1, curves, base)


@check.section('global-maps', quick=4, thorough=50)
def global_maps(c):
    """maps of the world beside each other"""
    n = c.cycle(3, 4, 5, 9)
    base = c.scratch()
    curves = coastlines(c, base)+grounded(c, base, SOUTH)
    run_maps(c, f'plot_global_grid_{n}maps', PLANE, n, curves, base)


def ice(c, base, which, kind, name):
    """outlines of an ice sheet"""
    b = basins(c, base, which, kind)
    start = 1 if b and kind != 'Amundsen' else 0
    extra = ['--basin-type', kind] if kind else []
    if which == SOUTH:
        return b+grounded(c, base, which)[start:], extra
    out = coastlines(c, base)+b
    if c.chance(.5):
        out += grounded(c, base, which)[start:30]+inventory(c, base)
        extra.append('--glacier-margins')
    return out, extra


@check.section('ice-sheet', quick=9, thorough=80)
def ice_sheet(c):
    """maps of one ice sheet"""
    name, which, n = c.cycle(('plot_AIS_grid_maps', SOUTH, 1),
        ('plot_GrIS_grid_maps', NORTH, 1), ('plot_AIS_grid_3maps', SOUTH, 3),
        ('plot_AIS_grid_4maps', SOUTH, 4), ('plot_GrIS_grid_3maps', NORTH, 3),
        ('plot_GrIS_grid_5maps', NORTH, 5), ('plot_QML_grid_3maps', SOUTH, 3))
    base = c.scratch()
    kind = c.pick('', 'Rignot', 'IMBIE-2', *(['IMBIE-2_subbasin'] if which == SOUTH else []))
    curves, extra = ice(c, base, which, kind, name)
    window(c, prog.load(name), which)
    run_maps(c, name, which, n, curves, base, ice=True, extra=extra)


@check.section('regional', quick=4, thorough=40)
def regional(c):
    """maps of a part of Antarctica"""
    region = c.cycle('ASE', 'IIpp', 'CpD', 'QML')
    base = c.scratch()
    kind = c.pick('', 'Rignot', 'IMBIE-2', 'IMBIE-2_subbasin', 'Amundsen')
    curves, extra = ice(c, base, SOUTH, kind, '')
    if c.chance(.8):
        window(c, prog.load('plot_AIS_regional_maps'), SOUTH, region)
    run_maps(c, 'plot_AIS_regional_maps', SOUTH, 1, curves, base, ice=True,
        extra=[*extra, '--region', region])


@check.section('both', quick=3, thorough=25)
def both(c):
    """maps of both ice sheets beside each other"""
    base = c.scratch()
    kind = c.cycle('', 'Rignot', 'IMBIE-2')
    coast = coastlines(c, base)
    per = []
    for which in (SOUTH, NORTH):
        b = basins(c, base, which, kind)
        g = grounded(c, base, which)
        # the outline of the Greenland ice sheet is that of the coast
        per.append(coast+b+(g[1 if b else 0:] if which == SOUTH else []))
    mod = prog.load('plot_AIS_GrIS_maps')
    for which in (SOUTH, NORTH):
        window(c, mod, which)
    run_maps(c, 'plot_AIS_GrIS_maps', (SOUTH, NORTH), 2, per, base, ice=True,
        extra=['--basin-type', kind] if kind else [])


@check.section('movies', quick=4, thorough=35)
def movies(c):
    """every month in a frame of its own"""
    name, which = c.cycle(('plot_AIS_grid_movie', SOUTH), ('plot_GrIS_grid_movie', NORTH),
        ('plot_AIS_regional_movie', SOUTH), ('plot_global_grid_movie', PLANE))
    base = c.scratch()
    extra = []
    if which == PLANE:
        curves = coastlines(c, base)+grounded(c, base, SOUTH)
    else:
        kind = c.pick('', 'Rignot', 'IMBIE-2')
        curves, extra = ice(c, base, which, kind, name)
        region = None
        if name == 'plot_AIS_regional_movie':
            region = c.pick('ASE', 'IIpp', 'CpD', 'QML')
            extra += ['--region', region]
        window(c, prog.load(name), which, region)
    s, argv = style(c, ['lon', 'lat', 'z'], movie=True, ice=which != PLANE)
    n = c.int(2, 4)
    index = c.chance(.5)
    grid = Grid(c, s['interpolation'], time=n, form=c.pick('netCDF4', 'HDF5'))
    months = np.sort(c.rng.permutation(np.arange(4, 180))[:n])
    time = 2002+(months-.5)/12
    path = os.path.join(base, 'grid')
    if index:
        D, M = grid.data, grid.mask
        with open(path, 'w') as f:
            for k in range(n):
                grid.data, grid.mask = D[k:k+1], M[k:k+1]
                grid.write(f'{path}{k}', ['lon', 'lat', 'z'], time=time[k:k+1])
                print(f'{path}{k}', file=f)
        grid.data, grid.mask = D, M
    else:
        grid.write(path, ['lon', 'lat', 'z'], time=time)
    out = os.path.join(base, 'map.mp4')
    argv = ['--directory', base, path, *grid.options(), '--figure-file', out, *argv, *extra,
        '--format', ('index-' if index else '')+grid.form]
    c.note(program=name, form=grid.form, index=index, months=months.tolist(),
        interval=grid.interval, down=grid.down, holes=grid.holes,
        interpolation=s['interpolation'], lon0=float(grid.lon[0]), contours=s['contours'])
    with watch() as seen:
        prog.run(c, name, argv)
    c.eq(list(seen), [out], 'figures')
    c.eq(len(seen[out]), n, 'frames')
    for k, axes in enumerate(seen[out]):
        c.eq(len(axes), 1, 'maps')
        a = axes[0]
        date = [x[0] for x in a['texts'] if '--' in x[0]]
        y, m = 2002+(int(months[k])-1)//12, (int(months[k])-1) % 12+1
        c.ok(len(date) == 1 and f'{y:4d}--{m:02d}' in date[0], 'date', got=a['texts'],
            want=(y, m))
        shown(c, a, which, s, grid, curves, t=k)
        words(c, axes, s)


if __name__ == '__main__':
    check.main()
