"""common command-line choices of the programs that read monthly fields"""
import os
import numpy as np
import gravity_toolkit as g
from rv import ref
from checks import R08

SUFFIX = dict(ascii='txt', netCDF4='nc', HDF5='H5')
BYCODE = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU']


def love_of(L, n=0, reference='CF'):
    return g.load_love_numbers(L, LOVE_NUMBERS=n, REFERENCE=reference)


def mask_file(c, base):
    """a coarse land-sea mask on a cell-centered global grid"""
    import netCDF4
    ny = c.pick(12, 18)
    nx = 2*ny
    d = 180.0/ny
    z = (c.rng.random((ny, nx)) < .4)*c.rng.integers(1, 4, (ny, nx))
    z[0, 0], z[0, 1] = 1, 0
    path = os.path.join(base, 'mask.nc')
    with netCDF4.Dataset(path, 'w') as f:
        f.createDimension('lat', ny)
        f.createDimension('lon', nx)
        f.createVariable('lat', 'f8', ('lat',))[:] = 90-d/2-d*np.arange(ny)
        f.createVariable('lon', 'f8', ('lon',))[:] = d/2+d*np.arange(nx)
        f.createVariable('LSMASK', 'i1', ('lat', 'lon'))[:] = z
    return path


def grid_of(c, intervals=(1, 2, 3), start=-180.0, fine=False):
    """argument list, longitudes and latitudes of an output grid"""
    d = c.pick((10.0,), (15.0,), (12.0,), (20.0, 10.0), (30.0, 15.0), (22.5, 7.5)) \
        if not fine else c.pick((5.0,), (6.0,), (5.0, 4.0))
    kind = c.pick(intervals)
    argv = ['--spacing', *d, '--interval', kind]
    dlon, dlat = d[0], d[-1]
    if kind == 1:
        lon = start+dlon*np.arange(round(360/dlon)+1)
        lat = 90.0-dlat*np.arange(round(180/dlat)+1)
        bounds = None
    else:
        lo = start, start+360.0, -90.0, 90.0
        if kind == 3:
            w, n = c.int(2, 6), c.int(2, 6)
            x0 = start+dlon*c.int(0, int(360/dlon)-w)
            y0 = -90+dlat*c.int(0, int(180/dlat)-n)
            lo = x0, x0+w*dlon, y0, y0+n*dlat
            argv += ['--bounds', *lo]
        lon = lo[0]+dlon/2+dlon*np.arange(round((lo[1]-lo[0])/dlon))
        lat = lo[3]-dlat/2-dlat*np.arange(round((lo[3]-lo[2])/dlat))
    return argv, lon, lat, d, kind


def wide(c):
    """degrees high enough for the decorrelation to change coefficients"""
    return getattr(c, 'wide', False)


class Choice:
    """monthly fields of a center with the options that select and correct
    them; self.argv drives a program, self.fields is what it has to use"""
    def __init__(self, c, months=None, proc=None, corrections=True, n=None,
            dset=None, least=1, geocenter=True):
        self.c, self.base = c, c.scratch()
        if months is None:
            lo = c.pick(4, 45, 92, 156, 168, 185, c.int(4, 200))
            n = c.int(2, 6) if n is None else n
            months = [m for m in range(lo, lo+n) if c.chance(.85)]
            months = months if len(months) > 1 else [lo, lo+1]
        self.m = m = R08.Mission(c, self.base, proc=proc or c.pick('CSR',
            'JPL', 'GFZ', 'COSTG'), dset=dset or c.pick('GSM', 'GSM', 'GAC', 'GAD'),
            months=months, L=c.int(27, 30) if wide(c) else c.int(5, 8))
        self.lo, self.hi, missing, self.used = R08.choose(c, m)
        if len(self.used) < least:
            # everything
            self.used = [int(x) for x in m.months]
            self.lo, self.hi = self.used[0], self.used[-1]
            missing = [x for x in range(self.lo, self.hi) if x not in self.used]
        self.missing = sorted(int(x) for x in missing)
        self.L = m.L-c.int(0, 1) if wide(c) else c.int(2, m.L)
        self.M = c.pick(None, None, c.int(20 if wide(c) else 1, self.L))
        self.order = self.L if self.M is None else self.M
        a = ['--directory', self.base, '--center', m.proc, '--release', m.drel,
            '--product', m.dset, '--lmax', self.L, '--start', self.lo,
            '--end', self.hi]
        # the default list of missing months has to be replaced
        a += ['--missing', *(self.missing or [999])]
        if self.M is not None:
            a += ['--mmax', self.M]
        self.kw = {}
        deg1, s20 = None, None
        if corrections and c.chance(.35):
            a += ['--pole-tide']
            self.kw['POLE_TIDE'] = True
        if corrections and m.proc != 'COSTG' and c.chance(.3):
            self.atm = R08.ecmwf(c, self.base, m.L)
            a += ['--atm-correction']
            self.kw['ATM'] = True
        every = np.arange(max(4, months[0]-12), months[-1]+13)
        if corrections and geocenter and m.proc != 'COSTG' and c.chance(.4):
            deg1 = c.pick('Tellus', 'SLF', 'UCI', 'Swenson', 'GFZ')
            a += ['--geocenter', deg1]
            have = every
            if c.chance(.4):
                have = np.array([x for x in every if x != self.used[0]])
                a += ['--interpolate-geocenter']
                self.kw['MODEL_DEG1'] = True
            folder = os.path.join(self.base, 'geocenter')
            if c.chance(.4):
                path = R08.geocenter(c, os.path.join(self.base, 'mine'), deg1,
                    m.proc, m.drel, have, name='degree_one.txt')[0]
                self.kw['DEG1_FILE'] = path
                a += ['--geocenter-file', path]
            else:
                R08.geocenter(c, folder, deg1, m.proc, m.drel, have)
        if corrections and c.chance(.4):
            s20 = c.pick('CSR', 'GFZ', 'GSFC')
            a += ['--slr-c20', s20]
            if s20 == 'GSFC':
                R08.tn14(c, self.base, every, every)
            else:
                R08.c20(c, self.base, s20, m.drel, every)
        if corrections and self.L >= 5 and self.order >= 2 and c.chance(.4):
            for key in ('21', '22', '30', '40', '50'):
                flag = ('--slr-' if key in ('21', '22') else '--slr-c')+key
                prov = c.pick(None, 'CSR', 'GFZ', 'LARES')
                kind = 'SLR_'+(key if key in ('21', '22') else 'C'+key)
                if prov == 'CSR' and key in ('21', '22'):
                    k, t = every, R08.Span(every).mid
                    v = R08.num(c, len(k)), R08.num(c, len(k))
                    w = [R08.small(c, len(k)) for _ in range(4)]
                    R08.put(os.path.join(self.base, f'C{key}_S{key}_{m.drel}.txt'),
                        ['# x']+[f'{t[i]:.4f} {v[0][i]:.12E} {v[1][i]:.12E} ' +
                        ' '.join(f'{x[i]:.4f}' for x in w) +
                        f' {t[i]-.04:.4f} {t[i]+.04:.4f}' for i in range(len(k))])
                elif prov == 'LARES' and key in ('30', '40', '50'):
                    t = R08.Span(every).mid
                    v = c.rng.standard_normal(len(every))
                    R08.put(os.path.join(self.base, f'C{key}_LARES_filtered.txt'),
                        ['  time   value']+[f'{t[i]:.4f} {v[i]:.6f} 0.0'
                        for i in range(len(every))])
                elif prov == 'GFZ' and key in ('21', '30'):
                    if not os.path.exists(os.path.join(self.base,
                            'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat')):
                        R08.gravis(c, self.base, every)
                else:
                    continue
                a += [flag, prov]
                self.kw[kind] = prov
        self.argv = a
        self.deg1, self.s20 = deg1, s20
        self.love = c.int(0, 4) if c.chance(.4) else 0
        self.reference = c.pick('CF', 'CF', 'CM', 'CE')

    def read(self):
        """what the options select (decided by R01 and R08)"""
        if not hasattr(self, '_read'):
            kw = dict(self.kw)
            if self.M is not None:
                kw['MMAX'] = self.M
            self._read = g.grace_input_months(self.base, self.m.proc,
                self.m.drel, self.m.dset, self.L, self.lo, self.hi,
                self.missing, self.s20, self.deg1, **kw)
        return self._read

    @property
    def plain(self):
        return not (self.kw or self.deg1 or self.s20)

    def cs(self):
        """cosine and sine series of the chosen months"""
        if self.plain:
            f = self.m.fields(self.L, self.order, False, self.used)
            return f[0].copy(), f[1].copy()
        r = self.read()
        return np.array(r['clm']), np.array(r['slm'])

    @property
    def time(self):
        return R08.times(self.m, self.used)

    def frame(self, units=1):
        if units not in (0, 2, 4) and self.reference == 'CM':
            # degree one of a load is not defined in this frame
            self.reference = 'CF'
        return units

    def love_argv(self):
        a = []
        if self.love or self.c.chance(.3):
            a += ['--love', self.love]
        if self.reference != 'CF' or self.c.chance(.3):
            a += ['--reference', self.reference]
        return a

    def love_numbers(self):
        return love_of(self.L, self.love, self.reference)

    def note(self, **kw):
        self.c.note(proc=self.m.proc, drel=self.m.drel, dset=self.m.dset,
            used=self.used, L=self.L, M=self.M, kw=list(self.kw),
            deg1=self.deg1, s20=self.s20, love=self.love,
            reference=self.reference, **kw)


def static_file(c, path, L, M, form, scale=1e-9, dated=None):
    """writes a harmonic field, returns its coefficients as stored"""
    C, S = ref.random_coeffs(c.rng, L, M, scale=scale)
    r = lambda a: np.array([[float(f'{x:.12e}') for x in row] for row in a])
    C, S = r(C), r(S)
    h = g.harmonics(lmax=L, mmax=M)
    h.clm, h.slm = C.copy(), S.copy()
    if dated is not None:
        h.time, h.month = np.float64(dated[0]), np.int64(dated[1])
    h.to_file(path, format=form, date=dated is not None)
    return C, S


def series_file(c, path, L, M, form, months, times, scale=1e-9):
    """writes a series of harmonic fields into one file"""
    n = len(months)
    h = g.harmonics(lmax=L, mmax=M)
    h.clm = np.zeros((L+1, M+1, n))
    h.slm = np.zeros((L+1, M+1, n))
    for t in range(n):
        h.clm[:, :, t], h.slm[:, :, t] = ref.random_coeffs(c.rng, L, M, scale=scale)
    h.time = np.array(times, dtype=float)
    h.month = np.array(months, dtype=np.int64)
    C, S = h.clm.copy(), h.slm.copy()
    h.to_file(path, format=form, date=True)
    return C, S


def fit(a, L, M):
    """coefficients cut or padded to a degree and order"""
    out = np.zeros((L+1, M+1)+a.shape[2:])
    n, m = min(L+1, a.shape[0]), min(M+1, a.shape[1])
    out[:n, :m] = a[:n, :m]
    return out


def weights(radius, L):
    """smoothing weights (decided by M07)"""
    if not radius:
        return np.ones(L+1)
    return ref.gauss(radius, L)


def read_grid(path, form, d=None, shape=None, extent=None, date=True):
    """longitudes, latitudes, data and time of an output grid, read without
    the toolkit"""
    if form == 'netCDF4':
        import netCDF4
        with netCDF4.Dataset(path) as f:
            v = {k: np.ma.getdata(f[k][:]) for k in f.variables}
            m = {k: np.ma.getmaskarray(f[k][:]) for k in f.variables}
            v['attributes'] = {k: f.getncattr(k) for k in f.ncattrs()}
            v['mask'] = m.get('z')
            v['units'] = getattr(f['z'], 'units', None) if 'z' in f.variables else None
    elif form == 'HDF5':
        import h5py
        with h5py.File(path, 'r') as f:
            v = {k: f[k][()] for k in f}
            v['attributes'] = dict(f.attrs)
            fv = f['z'].attrs.get('_FillValue') if 'z' in f else None
            v['mask'] = np.zeros(np.shape(v.get('z')), bool) if fv is None \
                else np.array(v['z'] == fv)
            u = f['z'].attrs.get('units') if 'z' in f else None
            v['units'] = u.decode() if isinstance(u, bytes) else u
    else:
        rows = np.array([[float(x) for x in r.split()] for r in open(path)
            if r.strip()])
        v = dict(rows=rows, lon=rows[:, 0], lat=rows[:, 1], z=rows[:, 2],
            attributes={})
        if date:
            v['time'] = np.unique(rows[:, -1])
    return v
