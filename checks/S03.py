"""S03: spatial files."""
import io
import os
import pathlib
import netCDF4
import h5py
import numpy as np
import gravity_toolkit as g
from checks import H03
from checks.H03 import packed
from rv.core import Check, Skip
from rv.objs import spat, snap, same

check = Check('S03', 'each case writes a spatial object to ascii, netCDF4 or '
    'HDF5, optionally compresses the file, reads it back and compares every '
    'valid cell, coordinate, date, month, mask and attribute; index files are '
    'written and read in shuffled order; regular grids of many spacings and '
    'extents are read from free-format text',
    ['ascii files carry 4 decimals of values, coordinates and dates',
     'masks survive in netCDF4 and HDF5 files only with a fill value'])

EXT = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}


def write(c, s, path, fmt, date, **kw):
    if c.chance(.5):
        s.to_file(path, format=fmt, date=date, **kw)
    else:
        getattr(s, 'to_'+fmt)(path, date=date, **kw)


def read(c, src, fmt, date, **kw):
    if c.chance(.5) and not isinstance(src, io.IOBase):
        return g.spatial().from_file(src, format=fmt, date=date, **kw)
    return getattr(g.spatial(), 'from_'+fmt)(src, date=date, **kw)


def compare(c, r, s, date, text=False, key=''):
    D, M = np.squeeze(s.data), np.squeeze(s.mask)
    c.eq(np.shape(r.data), D.shape, key+'shape')
    if s.fill_value is not None or text:
        c.ok(np.array_equal(r.mask, M), key+'mask')
    ok = ~M
    tol = dict(rtol=0, atol=5.1e-5) if text else dict(rtol=0)
    c.close(r.data[ok], D[ok], key+'data', **tol)
    ok = ok if ok.ndim == 2 else ok.any(axis=2)
    if text:
        c.close(r.lon[ok.any(axis=0)], s.lon[ok.any(axis=0)], key+'lon', **tol)
        c.close(r.lat[ok.any(axis=1)], s.lat[ok.any(axis=1)], key+'lat', **tol)
    else:
        c.close(r.lon, s.lon, key+'lon', rtol=0)
        c.close(r.lat, s.lat, key+'lat', rtol=0)
    if date:
        c.close(np.squeeze(r.time), np.squeeze(s.time), key+'time', rtol=0,
            atol=2e-4 if text else 0)
        c.close(np.squeeze(r.month), np.squeeze(s.month), key+'month', rtol=0)


def textgrid(c, s):
    """give s a descending regular grid readable from text; reading options"""
    ny, nx = s.shape
    kind = c.pick('global', 'extent', 'both', 'spacing')
    kw = {}
    if kind in ('global',):
        # nlat x nlon cells or nodes covering the globe
        off = c.pick(0.0, 0.5)
        s.lat = 90 - (np.arange(ny)+off)*(180.0/(ny if off else ny-1))
        dlat = 180.0/(ny if off else ny-1)
        n = nx if off or c.chance(.5) else nx-1
        dlon = 360.0/n
        s.lon = (np.arange(nx)+off)*dlon
        kw = dict(spacing=[dlon, dlat], nlat=ny, nlon=nx)
    else:
        dlon, dlat = (c.pick(0.05, 0.1, 0.25, 1/3, 0.5, 1.0, 2.5)
            for _ in range(2))
        lon0 = c.pick(0.0, -180.0, float(np.round(c.rng.uniform(-170, 300), 2)))
        lat0 = c.pick(90.0, float(np.round(c.rng.uniform(-50, 89), 2)))
        s.lon = lon0 + dlon*np.arange(nx)
        s.lat = lat0 - dlat*np.arange(ny)
        kw['extent'] = [s.lon[0], s.lon[-1], s.lat[-1], s.lat[0]]
        if kind in ('extent', 'both'):
            kw.update(nlat=ny, nlon=nx)
        if kind in ('spacing', 'both'):
            kw['spacing'] = [dlon, dlat]
    return kind, kw


@check.section('text', quick=80, thorough=800)
def text(c):
    s = spat(c, nt=None, nlat=c.int(2, 20), nlon=c.int(2, 20))
    kind, kw = textgrid(c, s)
    s.data = np.where(s.mask & (s.fill_value is not None), s.data,
        np.clip(s.data, -900, 900))
    date = c.chance(.5)
    how = c.pick('plain', 'plain', 'gzip', 'zip', 'bytes', 'case')
    path = os.path.join(c.scratch(), f'Grid_{c.index}.txt')
    c.note(kind=kind, shape=s.shape, date=date, how=how)
    if s.mask.all():
        s.mask[0, 0] = False
        s.data[0, 0] = 1.0
    keep = snap(s.data, s.mask, s.lon, s.lat, s.time, s.month)
    write(c, s, path, 'ascii', date)
    c.ok(same(keep, snap(s.data, s.mask, s.lon, s.lat, s.time, s.month)),
        'write-pure')
    src, pk = packed(c, path, how)
    r = read(c, src, 'ascii', date, **pk, **kw)
    compare(c, r, s, date, text=True)


@check.section('free-text', quick=40, thorough=400)
def freetext(c):
    """any row order, headers, column order, fortran exponents, errors"""
    s = spat(c, nt=None, nlat=c.int(2, 12), nlon=c.int(2, 12), masked=False)
    kind, kw = textgrid(c, s)
    date = c.chance(.5)
    cols = ['lon', 'lat', 'data'] + (['time'] if date else [])
    cols = [cols[i] for i in c.rng.permutation(len(cols))]
    if c.chance(.4):
        cols.insert(c.int(0, len(cols)), 'error')
    e = c.pick('E', 'D', 'e')
    head = c.pick(0, 3)
    lines = [f'header {i} 1.0 2.0' for i in range(head)]
    cells = [(i, j) for i in range(s.shape[0]) for j in range(s.shape[1])]
    for k in c.rng.permutation(len(cells)):
        i, j = cells[k]
        v = dict(lon=f'{s.lon[j]:.6f}', lat=f'{s.lat[i]:.6f}', error='.5',
            data=f'{s.data[i, j]:.12E}'.replace('E', e), time=f'{s.time:.5f}')
        lines.append('  '.join(v[n] for n in cols))
    path = os.path.join(c.scratch(), 'free.txt')
    pathlib.Path(path).write_text('\n'.join(lines)+'\n')
    c.note(kind=kind, shape=s.shape, cols=cols, exp=e, header=head)
    r = g.spatial(fill_value=c.pick(None, -9999.0)).from_ascii(path, date=date,
        columns=cols, header=head, **kw)
    compare(c, r, s, date, text=True)
    c.close(r.data, s.data, 'precision', rtol=1e-11)
    c.raises(ValueError, 'no-dimensions', g.spatial().from_ascii, path,
        date=date, columns=cols, header=head)


@check.section('binary', quick=100, thorough=1000)
def binary(c):
    fmt = c.cycle('netCDF4', 'HDF5')
    date = c.chance(.7)
    s = spat(c, nt='pick' if date else None)
    error = c.chance(.3)
    how = c.pick('plain', 'plain', 'gzip', 'zip', 'bytes', 'case')
    path = os.path.join(c.scratch(), f'Grid_{c.index}.{EXT[fmt]}')
    kw = {}
    if error:
        s.error = np.abs(c.rng.standard_normal(s.shape))
        if s.fill_value is not None:
            s.error[s.mask] = s.fill_value
        kw['field_mapping'] = dict(lon='longitude', lat='latitude', data='wt',
            error='sigma')
        if date:
            kw['field_mapping']['time'] = 't'
    elif c.chance(.4):
        kw.update(varname='water', lonname='x', latname='y', timename='when')
    c.note(fmt=fmt, date=date, shape=s.shape, how=how, error=error,
        fill=s.fill_value)
    keep = snap(s.data, s.mask, s.lon, s.lat, s.time, s.month)
    opt = dict(units='cm', longname='water thickness') if not error else \
        dict(attributes={'ROOT': {}, **{k: {} for k in
            kw['field_mapping'].values()}})
    write(c, s, path, fmt, date, **kw, **opt)
    c.ok(same(keep, snap(s.data, s.mask, s.lon, s.lat, s.time, s.month)),
        'write-pure')
    src, pk = packed(c, path, how)
    r = read(c, src, fmt, date, **pk, **kw)
    compare(c, r, s, date)
    if s.fill_value is not None:
        c.ok(r.fill_value == s.fill_value or np.isnan(s.fill_value),
            'fill-value')
    if error:
        E = np.squeeze(s.error)
        c.close(r.error, E, 'error', rtol=0)
    else:
        c.eq((r.attributes['data']['units'], r.attributes['data']['long_name']),
            ('cm', 'water thickness'), 'data-attributes')
        c.eq((r.attributes['lon']['units'], r.attributes['lat']['units']),
            ('degrees_east', 'degrees_north'), 'axis-attributes')
    # rewriting what was read changes nothing
    path2 = os.path.join(c.scratch(), 'again.'+EXT[fmt])
    write(c, r, path2, fmt, date)
    compare(c, read(c, path2, fmt, date), r, date, key='again-')


@check.section('layout', quick=30, thorough=300)
def layout(c):
    """the stored files, read by other software"""
    fmt = c.cycle('ascii', 'netCDF4', 'HDF5')
    s = spat(c, nt=None if fmt == 'ascii' else c.int(1, 4), fill=-9999.0)
    s.mask[0, 0] = False
    s.data[0, 0] = 1.0
    path = os.path.join(c.scratch(), 'f.'+EXT[fmt])
    kw = {} if fmt == 'ascii' else dict(title='a title', source='src',
        reference='ref', units='cm', longname='name')
    c.note(fmt=fmt, shape=s.shape)
    write(c, s, path, fmt, True, **kw)
    if fmt == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        ii, jj = np.nonzero(~s.mask)
        c.close(rows[:, 0], s.lon[jj], 'lon', rtol=0, atol=5.1e-5)
        c.close(rows[:, 1], s.lat[ii], 'lat', rtol=0, atol=5.1e-5)
        c.close(rows[:, 2], s.data[ii, jj], 'data', rtol=0, atol=5.1e-5)
        c.close(rows[:, 3], np.full(len(ii), s.time), 'time', rtol=0,
            atol=5.1e-5)
        return
    if fmt == 'netCDF4':
        with netCDF4.Dataset(path) as d:
            c.eq(d['z'].dimensions, ('lat', 'lon', 'time'), 'dimensions')
            z = d['z'][:]
            t, lon, lat = (d[n][:].data for n in ('time', 'lon', 'lat'))
            at = (d.title, d.source, d.reference, d['z'].units,
                d['z'].long_name)
            c.ok(np.array_equal(np.ma.getmaskarray(z), s.mask), 'mask')
            z = z.data
    else:
        with h5py.File(path) as d:
            z, t, lon, lat = (d[n][:] for n in ('z', 'time', 'lon', 'lat'))
            a = d.attrs
            at = (a['title'], a['source'], a['reference'],
                d['z'].attrs['units'], d['z'].attrs['long_name'])
            c.eq(d['z'].attrs['_FillValue'], -9999.0, 'fill')
            c.eq([x.label for x in d['z'].dims], ['lat', 'lon', 'time'],
                'dimensions')
    c.close(z, s.data, 'data', rtol=0)
    c.close(t, s.time, 'time', rtol=0)
    c.close(lon, s.lon, 'lon', rtol=0)
    c.close(lat, s.lat, 'lat', rtol=0)
    c.eq(at, ('a title', 'src', 'ref', 'cm', 'name'), 'attributes')
    # nothing of the title stays behind in the object or its next file
    path2 = os.path.join(c.scratch(), 'g.'+EXT[fmt])
    write(c, s, path2, fmt, True)
    r = read(c, path2, fmt, True)
    c.ok('title' not in r.attributes['ROOT'], 'title-leak')


@check.section('index', quick=24, thorough=240)
def index(c):
    fmt = c.cycle('ascii', 'netCDF4', 'HDF5')
    s = spat(c, nt=c.int(2, 5), fill=-9999.0)
    kw = {}
    if fmt == 'ascii':
        x = s.index(0)
        while True:
            kind, kw = textgrid(c, x)
            if kind == 'global':
                break
        s.lon, s.lat = x.lon, x.lat
        if np.all(s.mask, axis=(0, 1)).any():
            raise Skip      # no line of the file would carry the date
    n = s.shape[2]
    d = c.scratch()
    files = [os.path.join(d, f'm{k:03d}.{EXT[fmt]}') for k in range(n)]
    idx = os.path.join(d, 'index.txt')
    date = c.chance(.8)
    c.note(fmt=fmt, shape=s.shape, date=date)
    s.copy().to_index(idx, files, format=fmt, date=date)
    with open(idx) as f:
        lines = f.read().splitlines()
    c.eq([os.path.expanduser(x) for x in lines], files, 'listing')
    if date:
        lines = [lines[i] for i in c.rng.permutation(n)]
    with open(idx, 'w') as f:
        f.write('# comment\n\n' + '\n'.join(lines) + '\n% more\n')
    r = g.spatial().from_index(idx, format=fmt, date=date, **kw)
    c.ok(np.array_equal(r.mask, s.mask), 'mask')
    c.close(r.data[~s.mask], s.data[~s.mask], 'data', rtol=0,
        atol=5.1e-5 if fmt == 'ascii' else 0)
    if date:
        c.close(r.time, s.time, 'time', rtol=0,
            atol=2e-4 if fmt == 'ascii' else 0)
        c.close(r.month, s.month, 'month', rtol=0)
    # and the merged series is stored as one file
    if fmt != 'ascii' and date:
        path = os.path.join(d, 'merged')
        write(c, r, path, fmt, True)
        x = read(c, path, fmt, True)
        c.close(x.data, r.data, 'merged', rtol=0)


@check.section('transposed', quick=20, thorough=200)
def transposed(c):
    """files with longitude first are turned to (latitude, longitude)"""
    fmt = c.cycle('netCDF4', 'HDF5')
    s = spat(c, nt=None, masked=False)
    if s.shape[0] == s.shape[1]:
        s = spat(c, nt=None, masked=False, nlat=4, nlon=7)
    path = os.path.join(c.scratch(), 'f.'+EXT[fmt])
    c.note(fmt=fmt, shape=s.shape)
    if fmt == 'netCDF4':
        with netCDF4.Dataset(path, 'w') as d:
            for n in ('lon', 'lat'):
                d.createDimension(n, len(getattr(s, n)))
                d.createVariable(n, 'f8', (n,))[:] = getattr(s, n)
            d.createVariable('z', 'f8', ('lon', 'lat'))[:] = s.data.T
    else:
        with h5py.File(path, 'w') as d:
            d['lon'], d['lat'], d['z'] = s.lon, s.lat, s.data.T
    r = read(c, path, fmt, False)
    c.close(r.data, s.data, 'data', rtol=0)
    c.eq(r.mask.shape, s.shape, 'mask')


@check.section('special-months', quick=24, thorough=200)
def special(c):
    """months centered in another month are recognised in records and lists"""
    H03.records(c, 'spatial')


@check.section('missing', quick=6, thorough=12)
def missing(c):
    for n in ('ascii', 'netCDF4', 'HDF5'):
        c.raises(FileNotFoundError, 'missing-'+n,
            getattr(g.spatial(), 'from_'+n), os.path.join(c.scratch(), 'no'))


@check.section('overwrite', quick=12, thorough=60)
def overwrite(c):
    """writing over an existing file leaves nothing of the old one"""
    fmt = c.cycle('netCDF4', 'HDF5')
    path = os.path.join(c.scratch(), 'f.'+EXT[fmt])
    a, b = spat(c, nt=None), spat(c, nt=None)
    c.note(fmt=fmt, a=a.shape, b=b.shape)
    write(c, a, path, fmt, True)
    write(c, b, path, fmt, True)
    compare(c, read(c, path, fmt, True), b, True)
