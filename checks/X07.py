"""X07: programs for rasters, fingerprints, indices and dates."""
import datetime
import os
import re
import shutil
import numpy as np
import pyproj
import geoid_toolkit
import gravity_toolkit as g
from rv.core import Check
from rv import ref, prog
from rv.setup import (BYCODE, SUFFIX, Choice, fit, mask_file, read_grid,
    series_file, static_file, weights)
from checks import R07, R08
from checks.M11 import world
from checks.X01 import Corrections, maps, names, prefix_of

check = Check('X07', 'each case lays out the inputs of a program with generated '
    'numbers and names, runs its main() with generated options and compares '
    'what it wrote with an independent evaluation',
    ['the optional package geoid_toolkit is not installed: raster files are '
     'observed where they are handed over to it, geodetic latitudes are '
     'converted by a stand-in',
     'fingerprints are taken from sea_level_equation (M11), months and dates '
     'from grace_date and grace_months_index (R07)'])

PROJ = {
    '4326': ((-180, 180, -90, 90), 20),
    '3031': ((-3e6, 3e6, -2.5e6, 2.5e6), 5e5),
    '3413': ((-3e6, 3e6, -3.5e6, 3.5e6), 5e5),
    '+proj=stere +lat_0=90 +lat_ts=70 +lon_0=0 +R=6371228 +units=m +no_defs':
        ((-4e6, 4e6, -3e6, 3e6), 6e5),
    '32633': ((2e5, 8e5, 1e6, 8e6), 3e5),
    '+proj=laea +lat_0=45 +lon_0=20 +x_0=0 +y_0=0 +ellps=GRS80 +units=m +no_defs':
        ((-4e6, 4e6, -3e6, 3e6), 6e5),
}


@check.section('raster', quick=40, thorough=600)
def raster(c):
    """fields on a projected grid over land"""
    s = Choice(c)
    units = s.frame(c.int(1, 5))
    k = Corrections(c, s)
    if '--mask' in k.argv:
        mask = k.argv[k.argv.index('--mask')+1]
    else:
        mask = mask_file(c, s.base)
        k.argv += ['--mask', mask]
    form = c.pick('netCDF4', 'HDF5')
    radius = c.pick(0, 0, c.int(200, 1500))
    lmin = c.pick(None, c.int(0, min(3, s.L)))
    proj = c.cycle(*PROJ)
    limits, d = PROJ[proj]
    dx, dy = c.pick((d, d), (d, d/2), (d/2, d))
    x0, x1, y0, y1 = limits
    if c.chance(.6):
        # part of the region
        nx, ny = int((x1-x0)/dx), int((y1-y0)/dy)
        i, j = c.int(0, nx-2), c.int(0, ny-2)
        x0, y0 = x0+i*dx, y0+j*dy
        x1, y1 = x0+c.int(1, nx-i)*dx, y0+c.int(1, ny-j)*dy
    x = x0+dx/2+dx*np.arange(round((x1-x0)/dx))
    y = y0+dy/2+dy*np.arange(round((y1-y0)/dy))
    out = os.path.join(s.base, 'raster', *c.pick((), ('new', 'run')))
    argv = s.argv+s.love_argv()+k.argv+['--output-directory', out, '--format',
        form, '--units', units, '--mode', '640', '--spacing',
        *([dx] if dx == dy and c.chance(.5) else [dx, dy])]
    if proj != '4326' or c.chance(.5):
        argv += ['--projection', proj]
    argv += ['--bounds', x0, x1, y0, y1]
    if radius or c.chance(.3):
        argv += ['--radius', radius]
    if lmin is not None:
        argv += ['--lmin', lmin]
    pre = c.pick(None, 'PREFIX_')
    if pre:
        argv += ['--file-prefix', pre]
    s.note(form=form, units=units, radius=radius, lmin=lmin, proj=proj,
        bounds=(x0, x1, y0, y1), spacing=(dx, dy), gia=k.gia,
        removed=len(k.removed), destripe=k.destripe, mean=k.mean)
    geoid_toolkit.spatial.written.clear()
    prog.run(c, 'grace_raster_grids', argv)
    u = BYCODE[units]
    name = (f'{pre or prefix_of(s, k)}{u}_L{s.L}' +
        (f'M{s.M}' if s.M not in (None, s.L) else '') +
        (f'_r{radius}km' if radius else '')+('_FL' if k.destripe else '') +
        f'_{s.lo:03d}-{s.hi:03d}.{SUFFIX[form]}')
    path = os.path.join(out, name)
    c.eq(names(out), [name], 'files')
    kind, v, a, _ = geoid_toolkit.spatial.written[path]
    c.eq(kind, form, 'format')
    c.eq(os.stat(path).st_mode & 0o777, 0o640, 'mode')
    c.close(np.asarray(v['x'][0]), x, 'x', rtol=0, atol=1e-9*d)
    c.close(np.asarray(v['y'][0]), y, 'y', rtol=0, atol=1e-9*d)
    c.close(np.asarray(v['time'][0]), s.time, 'time', rtol=0, atol=1e-8)
    X, Y = np.meshgrid(x, y)
    crs = pyproj.CRS.from_user_input(int(proj) if proj.isdigit() else proj)
    lon, lat = pyproj.Transformer.from_crs(crs, 4326, always_xy=True).transform(X, Y)
    f = crs.ellipsoid.inverse_flattening
    f = 1/f if f else 0
    phi = np.degrees(np.arctan((1-f)**2*np.tan(np.radians(np.clip(lat, -89.9999999, 89.9999999)))))
    phi = np.where(np.abs(lat) > 89.9999999, lat, phi)
    hl, kl, ll = s.love_numbers()
    F = ref.factors_harmonic(s.L, hl, kl, ll)
    # over land: smoothed with twice the radius
    o = g.land_stokes(mask, s.L, MMAX=s.order, LOVE=s.love_numbers())
    q = (F['cmwe']*weights(2*radius, s.L))[:, None]
    at = lambda C, S, lo: ref.synth_points(np.where(np.arange(s.L+1)[:, None] >= lo, C, 0),
        np.where(np.arange(s.L+1)[:, None] >= lo, S, 0), lon.ravel(), phi.ravel()).reshape(lon.shape)
    land = at(np.asarray(o.clm)*q, np.asarray(o.slm)*q, 0)
    sure = np.abs(land-.025) > 1e-6
    z, hidden = v['z']
    c.eq(z.shape, lon.shape+(len(s.used),), 'shape')
    lo = 1 if lmin is None else lmin
    q = (F[u]*weights(radius, s.L))[:, None]
    for i in range(len(s.used)):
        c.ok(bool(np.all(hidden[..., i][sure] == (land <= .025)[sure])), 'over-land')
        w = at(k.clm[..., i]*q, k.slm[..., i]*q, lo)
        ok = ~hidden[..., i]
        c.close(np.asarray(z.data)[..., i][ok], w[ok], 'raster', rtol=1e-7,
            atol=1e-9*np.max(np.abs(w)))
        c.ok(bool(np.all(np.asarray(z.data)[..., i][~ok] == z.fill_value)), 'filled')
    c.eq(a['z']['units'], g.units.get_attributes(u)[0], 'units')
    c.ok(all(n in str(a['ROOT']['lineage']) for n in
        k.removed+([k.mean] if k.mean else [])), 'lineage')
    c.ok(pyproj.CRS.from_wkt(a['crs']['spatial_ref']) == crs, 'projection')


@check.section('fingerprint', quick=30, thorough=400)
def fingerprint(c):
    """sea level of every field of a file"""
    base = c.scratch()
    lon, lat, land = world(c)
    land = land.T
    import netCDF4
    mask = os.path.join(base, 'mask.nc')
    z = np.where(land > 0, c.rng.integers(1, 4, land.shape),
        c.rng.choice([0, 4], land.shape))
    with netCDF4.Dataset(mask, 'w') as nc:
        nc.createDimension('lat', len(lat))
        nc.createDimension('lon', len(lon))
        nc.createVariable('lat', 'f8', ('lat',))[:] = lat
        nc.createVariable('lon', 'f8', ('lon',))[:] = lon
        nc.createVariable('LSMASK', 'i1', ('lat', 'lon'))[:] = z
    L = c.int(3, 9)
    l0 = L+c.int(-1, 2)
    form = c.pick('netCDF4', 'HDF5', 'ascii')
    n = c.int(2, 4) if form != 'ascii' and c.chance(.6) else 0
    path = os.path.join(base, 'load.'+SUFFIX[form])
    date = bool(n) or c.chance(.5)
    if n:
        lo = c.int(4, 200)
        months = np.arange(lo, lo+n)
        t = 2002+(months-.5)/12
        C, S = series_file(c, path, l0, l0, form, months, t)
    else:
        t = np.array([2010.04])
        C, S = static_file(c, path, l0, l0, form, dated=(2010.04, 97) if date else None)
        C, S = C[..., None], S[..., None]
    C, S = fit(C, L, L), fit(S, L, L)
    # (mass cannot be told from a geoid of degree 1 in the CM frame)
    love, frame = c.int(0, 4), c.pick('CF', 'CF', 'CE')
    body, fluid = c.int(0, 1), c.int(0, 3)
    polar, it = c.chance(.5), c.int(1, 6)
    out = os.path.join(base, 'out.'+SUFFIX[form])
    argv = [path, out, '--mask', mask, '--lmax', L, '--format', form, '--mode', '640']
    argv += ['--date']*date+['--polar-feedback']*polar
    for key, v, d in (('--love', love, 0), ('--body', body, 0), ('--fluid', fluid, 0),
            ('--iterations', it, 6), ('--reference', frame, 'CF')):
        if v != d or c.chance(.3):
            argv += [key, v]
    c.note(L=L, l0=l0, form=form, n=n, date=date, love=love, frame=frame, body=body,
        fluid=fluid, polar=polar, it=it, shape=land.shape)
    prog.run(c, 'run_sea_level_equation', argv)
    LOVE = g.load_love_numbers(L, LOVE_NUMBERS=love, REFERENCE=frame, FORMAT='class')
    W = [np.asarray(g.sea_level_equation(C[..., i].copy(), S[..., i].copy(), lon, lat,
        land.T.copy(), LMAX=L, LOVE=LOVE, BODY_TIDE_LOVE=body, FLUID_LOVE=fluid,
        POLAR=polar, ITERATIONS=it, FILL_VALUE=0)).T for i in range(C.shape[-1])]
    v = read_grid(out, form, date=date)
    c.eq(os.stat(out).st_mode & 0o777, 0o640, 'mode')
    z = np.stack(W, -1)
    top = np.max(np.abs(z))
    if form == 'ascii':
        # only the ocean is written
        y, x = np.nonzero(z[..., 0] != 0)
        got = {(round(a, 4), round(b, 4)): d for a, b, d in v['rows'][:, :3]}
        c.ok(set(got) >= {(round(lon[j], 4), round(lat[i], 4)) for i, j in zip(y, x)},
            'points')
        for i in range(len(lat)):
            for j in range(len(lon)):
                a = got.get((round(lon[j], 4), round(lat[i], 4)), 0.0)
                c.close(a, z[i, j, 0], 'fingerprint', rtol=1e-6, atol=1e-4)
    else:
        c.close(v['lon'], lon, 'lon', rtol=0, atol=1e-9)
        c.close(v['lat'], lat, 'lat', rtol=0, atol=1e-9)
        got = np.asarray(v['z'], dtype=float)
        got = got.reshape(got.shape[:2]+(-1,))
        c.close(got, z, 'fingerprint', rtol=1e-6, atol=1e-7*top)
        c.eq(str(v['units']), 'centimeters', 'units')
        c.eq(int(v['attributes']['max_degree']), L, 'attributes')
        c.eq(int(v['attributes']['iterations']), it, 'attributes')
    if date:
        c.close(np.atleast_1d(v['time']), t, 'time', rtol=0, atol=1e-4)


CODE = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')


@check.section('index', quick=60, thorough=900)
def index(c):
    """newest files of the chosen versions"""
    base = c.scratch()
    drel = c.pick(['RL06'], ['RL06'], ['RL05'], ['RL05', 'RL06'])
    proc = list(c.rng.permutation(list(CODE))[:c.int(1, 3)])
    dset = list(c.rng.permutation(['GAA', 'GAB', 'GAC', 'GAD', 'GSM'])[:c.int(1, 3)])
    version = c.pick(('0', '1'), ('0', '3'), ('2', '2'), ('1', '4'))
    want, keep = {}, {}
    for p in CODE:
        for r in ('RL05', 'RL06'):
            for d in ('GAC', 'GAD', 'GSM', 'GAA', 'GAB'):
                if c.chance(.3):
                    continue
                folder = os.path.join(base, p, r, d)
                os.makedirs(folder)
                files, best = [], {}
                t = datetime.date(2002, 4, 1)+datetime.timedelta(days=c.int(0, 6000))
                for i in range(c.int(0, 8)):
                    e = t+datetime.timedelta(days=c.int(20, 32))
                    span = f'{t:%Y%j}-{e:%Y%j}'
                    gz = '.gz'*c.chance(.5)
                    if r == 'RL06':
                        m = c.pick('GRAC', 'GRFO')
                        for v in c.rng.permutation(5)[:c.int(1, 4)]:
                            sol = 'BC01' if d != 'GSM' else c.pick('BA01', 'BA01', 'BB01')
                            f = f'{d}-2_{span}_{m}_{CODE[p]}_{sol}_060{v}{gz}'
                            files.append(f)
                            if d != 'GSM':
                                # all versions match
                                best[span] = max(best.get(span, (-1, '')), (v, f))
                            elif sol == 'BA01' and str(v) == version[m == 'GRFO']:
                                best[span] = (v, f)
                    else:
                        x = {'CSR': 'UTCSR_0060_0005', 'GFZ': 'EIGEN_G---_005a',
                            'JPL': 'JPLEM_0001_0005'}[p]
                        f = f'{d}-2_{span}_{(e-t).days+1:04d}_{x}{gz}'
                        files.append(f)
                        # releases without missions in their names
                        if d == 'GSM' or p == 'JPL':
                            best[span] = (0, f)
                            if p == 'GFZ' and c.chance(.2):
                                # regularized fields in their own months
                                files[-1] = f.replace('G---', 'GK2-')
                                best[span] = (0, files[-1])
                        if c.chance(.3) and (d == 'GSM' or p == 'JPL'):
                            y = {'CSR': 'UTCSR_0096_0005', 'GFZ': 'EIGEN_G---_0004',
                                'JPL': 'JPLEM_0002_0005'}[p]
                            files.append(f'{d}-2_{span}_{(e-t).days+1:04d}_{y}{gz}')
                    t = e+datetime.timedelta(days=c.int(0, 3))
                files += c.pick([], ['readme.txt', f'{d}_notes.pdf', 'index.txt.old'])
                for f in files:
                    open(os.path.join(folder, f), 'w').close()
                if c.chance(.5):
                    with open(os.path.join(folder, 'index.txt'), 'w') as f:
                        f.write('before\n')
                    keep[folder] = 'before\n'
                if p in proc and r in drel and d in dset:
                    if r == 'RL05' and d != 'GSM' and p != 'JPL':
                        # names of this kind have no missions: not decided
                        want[folder] = None
                    else:
                        want[folder] = sorted(f for _, f in best.values())
    argv = ['--directory', base, '--center', *proc, '--release', *drel, '--product',
        *c.pick(dset, [d.lower() for d in dset]), '--version', *version, '--mode', '640']
    c.note(proc=proc, drel=drel, dset=dset, version=version, folders=len(want))
    prog.run(c, 'make_grace_index', argv)
    for folder, lines in want.items():
        path = os.path.join(folder, 'index.txt')
        if lines is None:
            continue
        c.eq(open(path).read().split(), lines, 'listed')
        c.eq(os.stat(path).st_mode & 0o777, 0o640, 'mode')
    for p in CODE:
        for r in ('RL05', 'RL06'):
            for d in ('GAC', 'GAD', 'GSM', 'GAA', 'GAB'):
                folder = os.path.join(base, p, r, d)
                path = os.path.join(folder, 'index.txt')
                if folder in want or not os.path.exists(folder):
                    continue
                c.eq(open(path).read() if os.path.exists(path) else None,
                    keep.get(folder), 'untouched')


@check.section('dates', quick=12, thorough=120)
def dates(c):
    """dates of every product and the table of months"""
    base = c.scratch()
    proc = list(c.rng.permutation(list(CODE))[:c.int(1, 3)])
    drel = c.pick(['RL06'], ['RL06'], ['RL05', 'RL06'], ['RL05'])
    recs, every = [], []
    for p in proc:
        for r in drel:
            n, first = c.int(2, 12), c.int(4, 30)
            for d in (('GAC', 'GAD', 'GSM') if p == 'CSR' else
                    ('GAA', 'GAB', 'GAC', 'GAD', 'GSM')):
                x = R07.Record(c, base, proc=p, drel=r, dset=d, n=n, first=first)
                every.append((p, r, d, x))
                if d == 'GSM':
                    recs.append(x)
    c.note(proc=proc, drel=drel)
    prog.run(c, 'run_grace_date', ['--directory', base, '--center', *proc,
        '--release', *drel, '--mode', '640'])
    for p, r, d, x in every:
        path = os.path.join(base, p, r, d, f'{p}_{r}_DATES.txt')
        have = [f for f in os.listdir(os.path.dirname(path)) if 'DATES' in f]
        c.eq(have, [f'{p}_{r}_DATES.txt'], 'files')
        rows = [t.split() for t in open(path).read().splitlines()[1:]]
        c.eq([int(t[1]) for t in rows], [int(m) for m in x.months], 'months')
        c.eq(os.stat(path).st_mode & 0o777, 0o640, 'mode')
        want = [R08.yearfrac(a) for a, b in x.spans]
        got = [float(t[0]) for t in rows]
        c.ok(all(w-.01 < q < w+.2 for q, w in zip(got, want)), 'dates',
            got=got[:4], want=want[:4])
    R07.months_table(c, os.path.join(base, 'GRACE_months.txt'), recs)


@check.section('resolution', quick=10, thorough=30)
def resolution(c):
    """half wavelengths that degrees resolve"""
    L = [c.int(1, 200) for _ in range(c.int(1, 5))]
    R = c.pick(None, 6378.137, 1737.4)
    cap = c.chance(.5)
    argv = ['--lmax', *L]+(['--radius', R] if R else [])+['--cap']*cap
    r = prog.run(c, 'calc_harmonic_resolution', argv)
    R = R or 6371.0008
    got = [(int(a), float(b)) for a, b in re.findall(r'(\d+): ([\d.]+) km', r.out)]
    c.eq([a for a, _ in got], L, 'degrees')
    want = [4*R*np.arcsin(1/(l+1)) if cap else np.pi*R/l for l in L]
    c.close(np.array([b for _, b in got]), np.array(want), 'kilometers', rtol=1e-9, atol=6e-5)


if __name__ == '__main__':
    check.main()


@check.section('decorrelated', quick=3, thorough=40)
def decorrelated(c):
    """degrees high enough for the decorrelation to change coefficients"""
    c.wide = True
    raster(c)
