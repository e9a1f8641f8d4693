"""M10: ocean and land functions in harmonics."""
import os
import netCDF4
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref
from checks.M03 import rectangle

check = Check('M10', 'each case writes a random categorical land-sea mask to '
    'netCDF4 and compares ocean_stokes and land_stokes with an independent '
    'quadrature of the indicator functions (and their sum with a uniform '
    'layer); simplification is judged cell by cell against a neighbour count')


def write(path, lsm, lon, lat, name='LSMASK'):
    with netCDF4.Dataset(path, 'w') as d:
        d.createDimension('lon', len(lon))
        d.createDimension('lat', len(lat))
        for n, v in (('lon', lon), ('lat', lat)):
            d.createVariable(n, 'f8', (n,))[:] = v
        d.createVariable(name, c_dtype(lsm), ('lat', 'lon'))[:] = lsm


def c_dtype(a):
    return a.dtype.str[1:]


def grid(c):
    n = c.int(6, 24)
    d = 180.0/n
    if c.chance(.5):
        lat, lon = 90-d/2-d*np.arange(n), d/2+d*np.arange(2*n)
    else:
        lat, lon = 90-d*np.arange(n+1), d*np.arange(2*n)
    if c.chance(.5):
        lat = lat[::-1].copy()
    if c.chance(.3):
        lon = lon-180
    return lon, lat


def neighbours(mask):
    """number of like land neighbours with periodic longitudes and the polar
    rows reflected"""
    nth, nphi = mask.shape
    out = np.zeros(mask.shape, int)
    for i in range(nth):
        up = i-1 if i > 0 else 1
        dn = i+1 if i < nth-1 else nth-2
        for j in range(nphi):
            out[i, j] = (mask[i, (j-1) % nphi] + mask[i, (j+1) % nphi]
                + mask[up, j] + mask[dn, j])
    return out


@check.section('functions', quick=40, thorough=300)
def functions(c):
    lon, lat = grid(c)
    L = c.int(1, 20)
    M = L if c.chance(.5) else c.int(0, L)
    lsm = c.rng.integers(0, 6, (len(lat), len(lon)))
    if c.chance(.5):
        lsm = np.where(c.rng.random(lsm.shape) < .6, 0, lsm)
    lsm = lsm.astype(c.pick('i1', 'i4', 'f8'))
    name = c.pick('LSMASK', 'mask')
    simple = c.chance(.4)
    love = ref.love(c.rng, L)
    path = os.path.join(c.scratch(), 'mask.nc')
    write(path, lsm, lon, lat, name)
    c.note(L=L, M=M, shape=lsm.shape, simplify=simple, name=name)
    kw = {} if name == 'LSMASK' else {'VARNAME': name}
    if M != L or c.chance(.5):
        kw['MMAX'] = M
    if simple or c.chance(.3):
        kw['SIMPLIFY'] = simple
    O = g.ocean_stokes(path, L, LOVE=love, **kw)
    D = g.land_stokes(path, L, LOVE=love, **kw)
    land = ((lsm >= 1) & (lsm <= 3)).astype(float)
    if simple:
        # a land cell with at most one land neighbour is removed
        n = neighbours(land)
        land = np.where((land == 1) & (n <= 1), 0.0, land)
    f = ref.factors_spatial(L, *love)['cmwe'][:, None]
    for Y, field, n in ((O, 1-land, 'ocean'), (D, land, 'land')):
        A, B = rectangle(field.T, lon, lat, L, M)
        top = np.abs(f*A).max() + np.abs(f*B).max() + 1e-30
        c.close(Y.clm, f*A, n, rtol=0, atol=1e-9*top)
        c.close(Y.slm, f*B, n+'-sine', rtol=0, atol=1e-9*top)
    A, B = rectangle(np.ones_like(land).T, lon, lat, L, M)
    top = np.abs(f*A).max()
    c.close(O.clm+D.clm, f*A, 'complementary', rtol=0, atol=1e-9*top)
    c.close(O.slm+D.slm, f*B, 'complementary-sine', rtol=0, atol=1e-9*top)


@check.section('missing', quick=3, thorough=6)
def missing(c):
    love = ref.love(c.rng, 4)
    for fn in (g.ocean_stokes, g.land_stokes):
        c.raises(FileNotFoundError, 'missing', fn, c.scratch()+'/none.nc', 4,
            LOVE=love)
