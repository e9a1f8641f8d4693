"""H03: harmonics files."""
import gzip
import io
import os
import pathlib
import zipfile
import netCDF4
import h5py
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv.objs import harm, snap, same, othercase

check = Check('H03', 'each case writes harmonics to ascii, netCDF4 or HDF5, '
    'optionally compresses the file, reads it back and compares every '
    'coefficient, date, month and attribute; index files are written and read '
    'in shuffled order',
    ['ascii files carry 12 decimals of the mantissa and dates to 1e-4 years'])

EXT = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}


def write(c, h, path, fmt, date, **kw):
    if c.chance(.5):
        h.to_file(path, format=fmt, date=date, **kw)
    else:
        getattr(h, 'to_'+fmt)(path, date=date, **kw)


def read(c, src, fmt, date, **kw):
    if c.chance(.5) and not isinstance(src, io.IOBase):
        return g.harmonics().from_file(src, format=fmt, date=date, **kw)
    return getattr(g.harmonics(), 'from_'+fmt)(src, date=date, **kw)


def packed(c, path, how):
    """(source, keyword arguments) for reading a stored file"""
    p = pathlib.Path(path)
    data = p.read_bytes()
    if how == 'gzip':
        q = str(p)+'.gz'
        with gzip.open(q, 'wb') as f:
            f.write(data)
        p.unlink()
        return q, dict(compression='gzip')
    if how == 'zip':
        q = str(p)+'.zip'
        with zipfile.ZipFile(q, 'w') as z:
            z.writestr(p.name, data)
        p.unlink()
        return q, dict(compression='zip')
    if how == 'bytes':
        b = io.BytesIO(data)
        b.filename = p.name
        p.unlink()
        return b, dict(compression='bytes')
    if how == 'case':
        return othercase(c, p), {}
    return (p if c.chance(.5) else str(p)), {}


def compare(c, r, h, fmt, date):
    sq = h.clm.ndim == 3 and h.clm.shape[2] == 1
    A = h.clm[..., 0] if sq else h.clm
    S = h.slm[..., 0] if sq else h.slm
    tol = 1e-12 if fmt == 'ascii' else 0
    c.close(r.clm, A, 'clm', rtol=tol)
    c.close(r.slm, S, 'slm', rtol=tol)
    c.eq((int(r.lmax), int(r.mmax)), (h.lmax, h.mmax), 'limits')
    c.ok(np.array_equal(r.l, np.arange(h.lmax+1)) and np.array_equal(r.m,
        np.arange(h.mmax+1)), 'degrees')
    if date:
        c.close(np.squeeze(r.time), np.squeeze(h.time), 'time', rtol=0,
            atol=5.1e-5 if fmt == 'ascii' else 0)
        c.close(np.squeeze(r.month), np.squeeze(h.month), 'month', rtol=0)


@check.section('round-trip', quick=90, thorough=900)
def roundtrip(c):
    fmt = c.cycle('ascii', 'netCDF4', 'HDF5')
    date = c.chance(.7)
    # undated files hold a single field
    h = harm(c, nt=None if fmt == 'ascii' or not date else 'pick')
    scale = 10.0**c.int(-14, 3)
    h.clm, h.slm = h.clm*scale, h.slm*scale
    how = c.pick('plain', 'plain', 'gzip', 'zip', 'bytes', 'case')
    path = os.path.join(c.scratch(), f'Harm_{c.index}.{EXT[fmt]}')
    c.note(fmt=fmt, date=date, shape=h.clm.shape, how=how, scale=scale)
    keep = snap(h.clm, h.slm, h.time, h.month)
    write(c, h, path, fmt, date)
    c.ok(same(keep, snap(h.clm, h.slm, h.time, h.month)), 'write-pure')
    src, kw = packed(c, path, how)
    r = read(c, src, fmt, date, **kw)
    compare(c, r, h, fmt, date)
    # rewriting what was read changes nothing
    path2 = os.path.join(c.scratch(), f'again.{EXT[fmt]}')
    write(c, r, path2, fmt, date)
    r2 = read(c, path2, fmt, date)
    compare(c, r2, r, fmt, date)


@check.section('layout', quick=30, thorough=300)
def layout(c):
    """the stored files, read by other software"""
    fmt = c.cycle('ascii', 'netCDF4', 'HDF5')
    h = harm(c, nt=None if fmt == 'ascii' else c.int(2, 4))
    path = os.path.join(c.scratch(), 'f.'+EXT[fmt])
    title = c.pick(None, 'a title')
    units = c.pick(None, 'cm w.e.')
    kw = {}
    if fmt != 'ascii':
        if title:
            kw['title'] = title
            kw['reference'] = 'some reference'
        if units:
            kw['units'] = units
    c.note(fmt=fmt, shape=h.clm.shape, kw=kw)
    write(c, h, path, fmt, True, **kw)
    if fmt == 'ascii':
        rows = np.loadtxt(path, ndmin=2)
        l, m = rows[:, 0].astype(int), rows[:, 1].astype(int)
        C, S, t = rows[:, 2], rows[:, 3], rows[:, 4]
        c.close(t, np.full(len(t), h.time), 'time', rtol=0, atol=5.1e-5)
        c.close(C, h.clm[l, m], 'clm', rtol=1e-12)
        c.close(S, h.slm[l, m], 'slm', rtol=1e-12)
    elif fmt == 'netCDF4':
        with netCDF4.Dataset(path) as d:
            l, m = d['l'][:].data, d['m'][:].data
            c.close(d['clm'][:].data, h.clm[l, m], 'clm', rtol=0)
            c.close(d['slm'][:].data, h.slm[l, m], 'slm', rtol=0)
            c.close(d['time'][:].data, h.time, 'time', rtol=0)
            c.close(d['month'][:].data, h.month, 'month', rtol=0)
            if title:
                c.eq((d.title, d.reference), (title, 'some reference'), 'title')
            c.eq(d['clm'].units, units or 'Geodesy_Normalization', 'units')
            c.ok(d['slm'].long_name and d['time'].units == 'years', 'names')
    else:
        with h5py.File(path) as d:
            l, m = d['l'][:], d['m'][:]
            c.close(d['clm'][:], h.clm[l, m], 'clm', rtol=0)
            c.close(d['slm'][:], h.slm[l, m], 'slm', rtol=0)
            c.close(d['time'][:], h.time, 'time', rtol=0)
            c.close(d['month'][:], h.month, 'month', rtol=0)
            if title:
                c.eq((d.attrs['title'], d.attrs['reference']),
                    (title, 'some reference'), 'title')
            c.eq(d['clm'].attrs['units'], units or 'Geodesy_Normalization',
                'units')
    n = (h.mmax+1)*(h.lmax+1) - h.mmax*(h.mmax+1)//2
    c.eq((len(l), len(set(zip(l.tolist(), m.tolist())))), (n, n), 'complete')
    r = read(c, path, fmt, True)
    if fmt != 'ascii':
        c.eq(r.attributes['clm'][0], units or 'Geodesy_Normalization',
            'units-read')
        c.eq(r.attributes['ROOT'].get('title'), title, 'title-read')


@check.section('ascii-formats', quick=30, thorough=300)
def formats(c):
    """free-format, fortran exponents, any row order, missing rows are zero"""
    h = harm(c, nt=None)
    f = h.flatten()
    order = c.rng.permutation(len(f.l))
    e = c.pick('E', 'D', 'e')
    date = c.chance(.5)
    lines = []
    for i in order:
        v = f'{f.l[i]:d} {f.m[i]:d} ' + ' '.join(
            f'{x: .13E}'.replace('E', e) for x in (f.clm[i], f.slm[i]))
        lines.append(v + (f'  {h.time:.5f}' if date else ''))
    path = os.path.join(c.scratch(), 'free.txt')
    pathlib.Path(path).write_text('\n'.join(lines)+'\n')
    c.note(shape=h.clm.shape, exp=e, date=date)
    r = g.harmonics().from_ascii(path, date=date)
    compare(c, r, h, 'ascii', date)


@check.section('index', quick=24, thorough=240)
def index(c):
    fmt = c.cycle('ascii', 'netCDF4', 'HDF5')
    h = harm(c, nt=c.int(2, 5))
    n = h.clm.shape[2]
    d = c.scratch()
    files = [os.path.join(d, f'm{k:03d}.{EXT[fmt]}') for k in range(n)]
    idx = os.path.join(d, 'index.txt')
    date = c.chance(.8)
    c.note(fmt=fmt, shape=h.clm.shape, date=date)
    h.copy().to_index(idx, files, format=fmt, date=date)
    with open(idx) as f:
        lines = f.read().splitlines()
    c.eq([os.path.expanduser(x) for x in lines], files, 'listing')
    if date:
        lines = [lines[i] for i in c.rng.permutation(n)]
    with open(idx, 'w') as f:
        f.write('# comment\n\n' + '\n'.join(lines) + '\n% more\n')
    r = g.harmonics().from_index(idx, format=fmt, date=date)
    tol = 1e-12 if fmt == 'ascii' else 0
    c.close(r.clm, h.clm, 'clm', rtol=tol)
    c.close(r.slm, h.slm, 'slm', rtol=tol)
    if date:
        c.close(r.time, h.time, 'time', rtol=0, atol=5.1e-5)
        c.close(r.month, h.month, 'month', rtol=0)


@check.section('missing', quick=6, thorough=12)
def missing(c):
    for n in ('ascii', 'netCDF4', 'HDF5'):
        c.raises(FileNotFoundError, 'missing-'+n,
            getattr(g.harmonics(), 'from_'+n), os.path.join(c.scratch(), 'no'))


@check.section('overwrite', quick=12, thorough=60)
def overwrite(c):
    """writing over an existing file leaves nothing of the old one"""
    fmt = c.cycle('ascii', 'netCDF4', 'HDF5')
    path = os.path.join(c.scratch(), 'f.'+EXT[fmt])
    a, b = harm(c, nt=None), harm(c, nt=None)
    c.note(fmt=fmt, a=a.clm.shape, b=b.clm.shape)
    write(c, a, path, fmt, True)
    write(c, b, path, fmt, True)
    compare(c, read(c, path, fmt, True), b, fmt, True)


@check.section('derived', quick=24, thorough=200)
def derived(c):
    """objects merged, copied or converted after reading are written alike"""
    fmt = c.cycle('netCDF4', 'HDF5')
    h = harm(c, nt=c.int(2, 4))
    d = c.scratch()
    files = []
    for i in range(h.clm.shape[2]):
        files.append(os.path.join(d, f'{i}.'+EXT[fmt]))
        write(c, h.index(i), files[-1], fmt, True, title='original',
            reference='someone')
    parts = [read(c, f, fmt, True) for f in files]
    c.note(fmt=fmt, shape=h.clm.shape)
    m = g.harmonics().from_list(parts)
    p = os.path.join(d, 'merged')
    write(c, m, p, fmt, True)
    compare(c, read(c, p, fmt, True), h, fmt, True)
    x = g.harmonics().from_dict(parts[0].to_dict())
    p = os.path.join(d, 'dict')
    write(c, x, p, fmt, True)
    r = read(c, p, fmt, True)
    compare(c, r, h.index(0), fmt, True)
    c.eq((r.attributes['ROOT']['title'], r.attributes['ROOT']['reference']),
        ('original', 'someone'), 'attributes-kept')
    # a title given to one file does not appear in another
    y = parts[0].copy()
    write(c, y, os.path.join(d, 'titled'), fmt, True, title='other')
    c.eq(parts[0].attributes['ROOT']['title'], 'original', 'copy-attributes')
    write(c, parts[0], os.path.join(d, 'plain'), fmt, True)
    r = read(c, os.path.join(d, 'plain'), fmt, True)
    c.eq(r.attributes['ROOT']['title'], 'original', 'title-leak')


@check.section('other-names', quick=24, thorough=200)
def names(c):
    """a file that is not there is never replaced by one with a longer name"""
    cls = c.cycle(g.harmonics, g.spatial, g.geocenter)
    d = c.scratch()
    name = c.pick('GRACE_clm_012.txt', 'A.nc', 'geo(1).txt', 'x+y.H5')
    for other in (name+'.old', name+'2', 'x'+name, name.replace('.', '_')):
        open(os.path.join(d, other), 'w').write('another file\n')
    ask = os.path.join(d, c.pick(name, name.upper(), name.lower()))
    c.note(cls=cls.__name__, name=name)
    c.raises(FileNotFoundError, 'missing',
        cls().case_insensitive_filename, ask)
    # the same name in another case is found
    real = os.path.join(d, name.swapcase() if c.chance(.5) else name)
    open(real, 'w').write('the file\n')
    o = cls().case_insensitive_filename(ask)
    c.eq(str(o.filename), real, 'found')


@check.section('special-months', quick=24, thorough=200)
def special(c):
    """months centered in another month are recognised in records and lists"""
    records(c, 'harmonics')


def records(c, cls):
    p = c.pick(119, 161, 120, 202)
    m = np.arange(p-c.int(2, 6), p+c.int(3, 8))
    mid = 2002+(m-.5)/12
    if p in (119, 161):
        seen = np.where(m == p, p-1, m)
        time = np.where(m == p, 2002+(p-1.02)/12, mid)
    else:
        seen = np.where(m == p, p+1, m)
        time = np.where(m == p, 2002+(p+.02)/12, mid)
    fmt = c.cycle('netCDF4', 'HDF5')
    d = c.scratch()
    c.note(fmt=fmt, month=p, n=len(m), cls=cls)
    n = c.int(1, 4)
    shape = (n+1, n+1, len(m)) if cls == 'harmonics' else (n+1, n+2, len(m))
    data = c.rng.standard_normal(shape)

    def make(k):
        if cls == 'harmonics':
            o = g.harmonics(lmax=n, mmax=n)
            o.clm = data[..., k].copy()*np.tri(n+1).reshape(n+1, n+1, *[1]*(data[..., k].ndim-2))
            o.slm = np.zeros_like(o.clm)
        else:
            o = g.spatial(fill_value=-9999.0)
            o.data = data[..., k].copy()
            o.mask = np.zeros(o.data.shape, bool)
            o.lon, o.lat = np.arange(n+2.0), np.arange(n+1.0)
        o.time, o.month = time[k].copy(), seen[k].copy()
        if cls == 'harmonics':
            o.update_dimensions()
        return o
    path = os.path.join(d, 'record.'+EXT[fmt])
    write(c, make(slice(None)), path, fmt, True)
    r = getattr(getattr(g, cls)(), 'from_'+fmt)(path)
    c.eq([int(x) for x in r.month], m.tolist(), 'record')
    c.close(r.time, time, 'record-time', rtol=0, atol=1e-9)
    parts = [make(k) for k in range(len(m))]
    r = getattr(g, cls)().from_list(parts, sort=c.chance(.5))
    c.eq([int(x) for x in r.month], m.tolist(), 'list')
    files = []
    for k, o in enumerate(parts):
        files.append(os.path.join(d, f'{k:03d}.'+EXT[fmt]))
        write(c, o, files[-1], fmt, True)
    index = os.path.join(d, 'index.txt')
    pathlib.Path(index).write_text('\n'.join(files)+'\n')
    r = getattr(g, cls)().from_index(index, format=fmt)
    c.eq([int(x) for x in r.month], m.tolist(), 'index')
    x = r.subset(m[1:])
    c.eq([int(y) for y in np.atleast_1d(x.month)], m[1:].tolist(), 'subset')
