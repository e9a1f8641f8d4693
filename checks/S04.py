"""S04: gridded scaling factors."""
import io
import os
import h5py
import netCDF4
import numpy as np
import gravity_toolkit as g
from checks.H03 import packed
from checks.S03 import textgrid
from rv.core import Check
from rv.objs import spat, snap, same

check = Check('S04', 'each case draws two gridded series, computes scaling '
    'factors, errors and magnitudes and compares cell by cell with a '
    'least-squares fit of one series to the other; factor files are written '
    'and read in text, netCDF4 and HDF5')


def factors(c, shape=None, fill=None):
    s = spat(c, nt=None, fill=fill, nlat=shape and shape[0],
        nlon=shape and shape[1])
    k = g.scaling_factors(fill_value=fill)
    k.lon, k.lat, k.data, k.mask = s.lon, s.lat, s.data, s.mask
    k.error = np.abs(c.rng.standard_normal(s.shape))
    k.magnitude = np.abs(c.rng.standard_normal(s.shape))
    if fill is not None:
        k.error[k.mask] = fill
        k.magnitude[k.mask] = fill
    return k


def series(c, cls, s):
    k = cls(fill_value=s.fill_value)
    k.lon, k.lat, k.data, k.mask = (s.lon.copy(), s.lat.copy(), s.data.copy(),
        s.mask.copy())
    if s.time is not None:
        k.time, k.month = s.time.copy(), s.month.copy()
    return k


@check.section('fit', quick=60, thorough=600)
def fit(c):
    nt = c.int(2, 8)
    a = spat(c, nt=nt)
    b = spat(c, nt=nt, nlat=a.shape[0], nlon=a.shape[1])
    if c.chance(.3):
        b.time, b.month = a.time.copy(), a.month.copy()
    one = series(c, g.scaling_factors, a)
    two = b if c.chance(.5) else series(c, g.scaling_factors, b)
    c.note(shape=a.shape, fill=(a.fill_value, b.fill_value))
    keep = snap(one.data, one.mask, two.data, two.mask, one.fill_value)
    k = one.kfactor(two)
    c.ok(same(keep, snap(one.data, one.mask, two.data, two.mask,
        one.fill_value)), 'operands-untouched')
    M = (a.mask | b.mask).any(axis=2)
    c.ok(np.array_equal(k.mask, M), 'mask')
    i, j = np.nonzero(~M)
    A, B = a.data[i, j], b.data[i, j]
    f = (A*B).sum(axis=1)/(A*A).sum(axis=1)
    c.close(k.data[i, j], f, 'factor', rtol=1e-10)
    e = np.sqrt(((A*f[:, None]-B)**2).sum(axis=1)/nt)
    c.near(k.error[i, j], e, 'error', tol=1e-9)
    c.close(k.magnitude[i, j], np.sqrt((B**2).sum(axis=1)), 'magnitude',
        rtol=1e-10)
    # least squares: no other factor fits better
    for d in (-1e-3, 1e-3):
        c.ok(np.all((((f+d)[:, None]*A-B)**2).sum(axis=1) >=
            ((k.data[i, j][:, None]*A-B)**2).sum(axis=1)*(1-1e-12)), 'minimal')
    for n in ('data', 'error', 'magnitude'):
        c.ok(np.all(getattr(k, n)[M] == k.fill_value), 'fill-'+n)
        c.ok(k[n] is getattr(k, n), 'item')
    c.close(k.lon, a.lon, 'lon', rtol=0)
    c.close(k.lat, a.lat, 'lat', rtol=0)
    # exact proportionality is recovered
    two = series(c, g.spatial, a)
    ok = ~a.mask
    two.data[ok] *= 1.7
    k = one.kfactor(two)
    ok = ok.all(axis=2)
    c.close(k.data[ok], np.full(ok.sum(), 1.7), 'proportional', rtol=1e-10)
    c.ok(np.all(np.abs(k.error[ok]) < 1e-8*np.abs(a.data[ok]).max(initial=1)),
        'no-residual')


@check.section('text', quick=30, thorough=300)
def text(c):
    k = factors(c, (c.int(2, 12), c.int(2, 12)), c.pick(None, -9999.0))
    kind, kw = textgrid(c, k)
    if k.mask.all():
        k.mask[0, 0] = False
        k.data[0, 0] = k.error[0, 0] = k.magnitude[0, 0] = 1
    ok = ~k.mask
    k.data[ok] = np.clip(k.data[ok], -900, 900)
    path = os.path.join(c.scratch(), 'Scale.txt')
    how = c.pick('plain', 'gzip', 'zip', 'bytes')
    c.note(shape=k.shape, kind=kind, how=how)
    k.to_ascii(path)
    src, pk = packed(c, path, how)
    r = g.scaling_factors(fill_value=c.pick(None, -5e5)).from_ascii(src, **pk,
        **kw)
    c.ok(np.array_equal(r.mask, k.mask), 'mask')
    for n in ('data', 'error', 'magnitude'):
        c.close(getattr(r, n)[ok], getattr(k, n)[ok], n, rtol=0, atol=5.1e-5)
        if r.fill_value is not None:
            c.ok(np.all(getattr(r, n)[~ok] == -5e5), n+'-fill')
    c.close(r.lon[ok.any(axis=0)], k.lon[ok.any(axis=0)], 'lon', rtol=0,
        atol=5.1e-5)
    c.close(r.lat[ok.any(axis=1)], k.lat[ok.any(axis=1)], 'lat', rtol=0,
        atol=5.1e-5)


@check.section('binary', quick=30, thorough=300)
def binary(c):
    fmt = c.cycle('netCDF4', 'HDF5')
    k = factors(c, fill=c.pick(None, -9999.0))
    fm = dict(lon='lon', lat='lat', data='kfactor', error='error',
        magnitude='power')
    path = os.path.join(c.scratch(), 'Scale.x')
    c.note(fmt=fmt, shape=k.shape)
    at = {'ROOT': {}, **{v: {'units': 'u'+v} for v in fm.values()}}
    k.to_file(path, format=fmt, date=False, field_mapping=fm, attributes=at)
    r = getattr(g.scaling_factors(), 'from_'+fmt)(path, date=False,
        field_mapping=fm)
    for n in ('data', 'error', 'magnitude', 'lon', 'lat'):
        c.close(getattr(r, n), getattr(k, n), n, rtol=0)
        c.eq(r.attributes[n]['units'], 'u'+fm[n], 'units')
    if k.fill_value is not None:
        c.ok(np.array_equal(r.mask, k.mask), 'mask')
