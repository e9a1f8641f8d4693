"""X11: files state how they were made."""
import datetime
import os
import re
import sys

import h5py
import netCDF4
import numpy as np

import gravity_toolkit as g
import geoid_toolkit
from rv.core import Check, Case
from rv import prog
from checks import X01, X02, X03, X04, X06, X07
from checks.X09 import changed, parsed, tree

check = Check('X11', 'each case prepares the inputs of a program as the check of '
    'its results does, runs it once while a monitor records the files it opens, '
    'and compares the global and variable attributes of every file that appeared '
    'with the parsed arguments and the files that were read', [])

GRAVITY = 'GRACE/GRACE-FO '
LOVE = {0: ('PREM', 'Han and Wahr (1995)'), 1: ('PREM', 'Gegout et al. (2010)'),
    2: ('PREM', 'Wang et al. (2012)'), 3: ('PREMhard', 'Wang et al. (2012)'),
    4: ('PREMsoft', 'Wang et al. (2012)')}
UNITS = {1: ('cm', 'Equivalent_Water_Thickness'), 2: ('mm', 'Geoid_Height'),
    3: ('mm', 'Elastic_Crustal_Uplift'), 4: ('\u03bcGal', 'Gravitational_Undulation'),
    5: ('mbar', 'Equivalent_Surface_Pressure')}
_seen = None


def _hook(event, args):
    if _seen is not None and event == 'open' and args and \
            isinstance(args[0], (str, bytes, os.PathLike)):
        _seen.append(os.path.abspath(os.fsdecode(args[0])))


sys.addaudithook(_hook)


class Done(BaseException):
    pass


def plain(v):
    """attribute as text, a number or a list of them"""
    if isinstance(v, bytes):
        return v.decode()
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v] if v.ndim else plain(v[()])
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v.item() if isinstance(v, np.generic) else v


def attributes(path):
    """global attributes and those of the variables"""
    if path in geoid_toolkit.spatial.written:
        _, _, a, _ = geoid_toolkit.spatial.written[path]
        a = {k: {x: plain(y) for x, y in v.items()} for k, v in a.items()}
        return a.pop('ROOT'), a
    if path.endswith('.nc'):
        with netCDF4.Dataset(path) as f:
            return ({k: plain(f.getncattr(k)) for k in f.ncattrs()},
                {v: {k: plain(f[v].getncattr(k)) for k in f[v].ncattrs()}
                for v in f.variables})
    with h5py.File(path) as f:
        return ({k: plain(v) for k, v in f.attrs.items()},
            {v: {k: plain(x) for k, x in f[v].attrs.items()
            if k not in ('REFERENCE_LIST', 'DIMENSION_LIST', 'CLASS')} for v in f})


def listed(v):
    return v if isinstance(v, list) else [v]


def base(name):
    """name of a data file without compression"""
    return re.sub(r'\.gz$', '', os.path.basename(str(name)))


def written(c, G, name):
    """software and date"""
    day = lambda s: (datetime.datetime.now()-datetime.timedelta(seconds=s)).strftime('%Y-%m-%d')
    c.ok(G.get('date_created') in (day(0), day(120)), 'date-created')
    if name not in ('calc_degree_one', 'monte_carlo_degree_one'):
        c.eq(G.get('reference'), f'Output from {name}.py', 'reference')


def software(c, G):
    c.eq((G.get('software_reference'), G.get('software_version')),
        (g.version.project_name, g.version.full_version), 'software')


def earth(c, G, love, frame, L):
    c.eq((G.get('earth_model'), G.get('earth_love_numbers')), LOVE[love], 'earth-model')
    c.eq(G.get('reference_frame'), frame, 'reference-frame')
    c.eq(int(G['max_degree']), L, 'max-degree')


def constants(c, G):
    for key, want, unit in (('earth_radius', 6.371e8, 'cm'),
            ('earth_density', 5.517, 'g/cm^3'),
            ('earth_gravity_constant', 3.986004e20, 'cm^3/s^2')):
        v, u = G[key].split()
        c.close(float(v), want, 'earth-constants', rtol=2e-3)
        c.eq(u, unit, 'earth-constants')


SOURCE = {'Tellus': 'JPL Tellus', 'SLR': 'CSR SLR', 'UCI': 'UCI', 'SLF': 'UCI',
    'Swenson': 'Swenson', 'GFZ': 'GFZ GravIS'}


def inputs(c, G, a, opened, product, more):
    """corrections and files of the GRACE/GRACE-FO fields"""
    known = {os.path.basename(p) for p in opened}
    for key in ('slr_c20', 'slr_21', 'slr_22', 'slr_c30', 'slr_c40', 'slr_c50'):
        if not hasattr(a, key):
            continue
        name = 'SLR '+key[4:].upper()
        c.eq(name in G, bool(getattr(a, key)), 'replaced', name)
        if name in G:
            who, what = G[name]
            c.ok(getattr(a, key) in who, 'replaced-source', (getattr(a, key), who))
            c.ok(what in known and (name[4:] in what or re.search('SLR|TN', what)
                is not None), 'replaced-file', what)
    if hasattr(a, 'geocenter'):
        c.eq('geocenter' in G, bool(a.geocenter), 'geocenter')
        if a.geocenter:
            who, what = G['geocenter']
            c.eq(who, SOURCE[a.geocenter], 'geocenter-source')
            c.ok(what in known, 'geocenter-file', what)
            if a.geocenter_file:
                c.eq(what, os.path.basename(a.geocenter_file), 'geocenter-file')
    for key, flag, who in (('pole_tide_correction', 'pole_tide', 'Wahr et al. (2015)'),
            ('atmospheric_correction', 'atm_correction', 'Fagiolini et al. (2015)')):
        c.eq(G.get(key), who if getattr(a, flag, False) else None, 'corrected')
    data = [base(p) for p in set(opened) if re.match(
        rf'({product}-2|TN-\d+_GA[EFG]-2)_', os.path.basename(p))]
    data = [os.path.splitext(p)[0] if re.search(r'\.(txt|gfc)$', p) else p for p in data]
    got = [base(p) for p in listed(G['lineage'])]
    got = [os.path.splitext(p)[0] if re.match(rf'({product}-2|TN-\d+_GA[EFG]-2)_', p) and
        re.search(r'\.(txt|gfc)$', p) else p for p in got]
    c.ok(len(data) > 0, 'files-read')
    c.eq(sorted(got), sorted(data+more), 'lineage')


def mean_of(a):
    return [os.path.basename(a.mean_file)] if a.mean_file else []


def removed(a):
    out = []
    form = a.remove_format or []
    for f, x in zip(a.remove_file or [], list(form)*len(a.remove_file or [])):
        if x.startswith('index'):
            with open(f, encoding='utf8') as fid:
                out += [os.path.basename(line.split()[0]) for line in fid
                    if line.strip() and not line.strip().startswith('#')]
        else:
            out.append(os.path.basename(f))
    return out


def processed(c, G, a, opened, title, more, product=None):
    """a field of the whole processing of GRACE/GRACE-FO months"""
    product = product or a.product
    c.eq((G.get('generating_institute'), G.get('product_release'), G.get('product_name'),
        G.get('product_type')), (a.center, a.release, product, 'gravity_field'), 'product')
    c.eq(G.get('title'), title, 'title')
    earth(c, G, a.love, getattr(a, 'reference', 'CF'), a.lmax)
    c.eq(int(G['max_order']), a.lmax if not a.mmax else a.mmax, 'max-order')
    c.eq(G.get('smoothing_radius'), f'{a.radius:.0f} km' if a.radius else None, 'smoothing')
    c.eq(G.get('filtering'), 'Destriped' if a.destripe else None, 'filtering')
    gia = getattr(a, 'gia', None)
    c.eq('GIA' in G, bool(gia), 'gia')
    if gia:
        c.eq(G['GIA'][1], os.path.basename(a.gia_file), 'gia-file')
    constants(c, G)
    inputs(c, G, a, opened, product, more)


def gridded(c, V, units, z='z', time=True):
    c.eq((V[z].get('units'), V[z].get('long_name')), UNITS[units], 'units')
    if 'lon' in V:
        c.eq((V['lon']['units'], V['lat']['units'], V['lon']['long_name'],
            V['lat']['long_name']), ('degrees_east', 'degrees_north', 'longitude',
            'latitude'), 'coordinates')


def coefficients(c, V, date=True):
    c.eq((V['clm'].get('units'), V['slm'].get('units')), ('Geodesy_Normalization',)*2,
        'units')
    c.eq((V['clm'].get('long_name'), V['slm'].get('long_name')),
        ('cosine_spherical_harmonics', 'sine_spherical_harmonics'), 'coordinates')
    c.eq((V['l'].get('long_name'), V['m'].get('long_name')),
        ('spherical_harmonic_degree', 'spherical_harmonic_order'), 'coordinates')
    if 'time' in V:
        c.eq((V['time']['units'], V['time']['long_name'], V['month']['long_name']),
            ('years', 'Date_in_Decimal_Years', 'GRACE_month'), 'dates')


def errors_file(c, name, G, V):
    written(c, G, name)
    software(c, G)
    c.eq(G.get('title'), GRAVITY+'Spherical Harmonic Errors', 'title')
    coefficients(c, V)


def maps(c, name, a, f, G, V, opened, files):
    written(c, G, name)
    software(c, G)
    processed(c, G, a, opened, GRAVITY+'Spatial Data', mean_of(a)+removed(a))
    gridded(c, V, a.units)
    c.eq((V['time']['units'], V['time']['long_name']), ('years', 'Date_in_Decimal_Years'),
        'dates')


def raster(c, name, a, f, G, V, opened, files):
    c.eq(G.get('reference'), f'Output from {name}.py', 'reference')
    processed(c, G, a, opened, GRAVITY+'Spatial Data', mean_of(a)+removed(a))
    gridded(c, V, a.units)
    c.eq(V['z']['degree_of_truncation'], a.lmax, 'degree-of-truncation')
    c.eq((V['time']['units'], V['time']['long_name']), ('years', 'Date_in_Decimal_Years'),
        'dates')
    c.eq(V['z']['grid_mapping'], 'crs', 'grid-mapping')
    geographic = str(a.projection) == '4326'
    for k, axis in (('x', 'longitude' if geographic else 'projection_x_coordinate'),
            ('y', 'latitude' if geographic else 'projection_y_coordinate')):
        c.eq(V[k]['standard_name'], axis, 'axes')
        c.ok(bool(V[k]['long_name']), 'axes')
        c.ok(V[k]['units'].startswith('degree') if geographic else
            V[k]['units'] in ('metre', 'm', 'meter'), 'axes-units', V[k]['units'])


def spatial_error(c, name, a, f, G, V, opened, files):
    if 'clm' in V:
        return errors_file(c, name, G, V)
    written(c, G, name)
    software(c, G)
    processed(c, G, a, opened, GRAVITY+'Spatial Error', mean_of(a))
    gridded(c, V, a.units)


def scaled(c, name, a, f, G, V, opened, files):
    if 'clm' in V:
        return errors_file(c, name, G, V)
    written(c, G, name)
    software(c, G)
    kind = 'Scaling Error' if '_ERROR_' in f or 'ERROR_' in f else \
        'Spatial Error' if 'DELTA_' in f else 'Spatial Data'
    c.eq(G.get('title'), GRAVITY+kind, 'title')
    gridded(c, V, 1)
    c.eq('time' in V, kind != 'Scaling Error', 'dates')


def mean(c, name, a, f, G, V, opened, files):
    written(c, G, name)
    software(c, G)
    c.eq((G.get('generating_institute'), G.get('product_release'), G.get('product_name'),
        G.get('product_type')), (a.center, a.release, a.product, 'gravity_field'), 'product')
    c.eq((int(G['max_degree']), int(G['max_order'])), (a.lmax,
        a.lmax if a.mmax is None else a.mmax), 'max-degree')
    inputs(c, G, a, opened, a.product, [])
    coefficients(c, V)


ALIAS = {'Q1': 9.1, 'O1': 13.6, 'P1': 171.2, 'S1': 322.1, 'K1': 2725.4, 'J1': 27.8,
    'M2': 13.5, 'S2': 161.0, 'K2': 1362.7}


def fitted(c, name, a, f, G, V, opened, files):
    """maps of regression terms and their statistics"""
    written(c, G, name)
    software(c, G)
    piece = name == 'piecewise_grace_maps'
    u, long = UNITS[a.units]
    w = re.sub(r'_\d{3}-\d{3}\.\w+$', '', f).split('_')
    key = '_'.join(w[-2:]) if w[-1] in ('AMPL', 'PHASE') or \
        w[-2] in ('SSE', 'AIC', 'BIC', 'R2Adj') else w[-1]
    stat = re.match(r'(SSE|AIC|BIC|R2Adj)_', key)
    c.eq(V['data'].get('description'), 'Model_fit', 'description')
    if stat:
        what = {'SSE': 'Sum of Squares Error', 'AIC': 'Akaike information criterion',
            'BIC': 'Bayesian information criterion',
            'R2Adj': 'Adjusted Coefficient of Determination'}[stat.group(1)]
        c.eq((V['data'].get('units'), V['data'].get('long_name')), (stat.group(1), what),
            'statistic')
        c.ok('error' not in V, 'statistic')
        return
    title = {'x0': 'Constant', 'x1': 'Trend', 'x2': 'Quadratic', 'px1': 'Piecewise Trend'}
    if not piece:
        title.update(x0='Constant' if a.order else 'Mean',
            x1='Trend' if a.order == 1 else 'Linear')
    for k, n in (('S', 'Semi-Annual'), ('A', 'Annual')):
        title.update({k+'S': n+' Sine', k+'C': n+' Cosine'})
    for k, n in (('SEMI', 'Semi-Annual'), ('ANN', 'Annual')):
        title.update({k+'_AMPL': n+' Amplitude', k: n+' Amplitude', k+'_PHASE': n+' Phase'})
    for t in ALIAS:
        for s, n in (('GRC', 'GRACE'), ('GFO', 'GRACE-FO')):
            n = f'{t} Tidal Alias ({n})'
            title.update({f'{t}S{s}': n+' Sine', f'{t}C{s}': n+' Cosine',
                f'{t}{s}_AMPL': n+' Amplitude', f'{t}{s}': n+' Amplitude',
                f'{t}{s}_PHASE': n+' Phase'})
    c.eq(G.get('title'), 'GRACE/GRACE-FO_Spatial_Data_'+title[key], 'title')
    power = re.fullmatch(r'p?x(\d)', key)
    power = int(power.group(1)) if power else 0
    want = ('degrees', 'Phase') if key.endswith('_PHASE') else \
        (u+(f' yr^-{power}' if power else ''), long)
    for v, what in (('data', 'Model_fit'), ('error', 'Uncertainty_in_model_fit')):
        c.eq((V[v].get('units'), V[v].get('long_name')), want, 'units')
        c.eq(V[v].get('description'), what, 'description')
    c.eq(float(V['error']['confidence']), 95.0, 'confidence')
    gridded(c, {'z': dict(zip(('units', 'long_name'), UNITS[1])), **V}, 1)


def mascon(c, name, a, f, G, V, opened, files):
    errors_file(c, name, G, V)


def kernel(c, name, a, f, G, V, opened, files):
    written(c, G, name)
    software(c, G)
    if 'clm' in V:
        return coefficients(c, V)
    c.eq((V['z']['units'], V['z']['long_name']), ('unitless', 'Sensitivity_Kernel'), 'units')


def uplift(c, name, a, f, G, V, opened, files):
    written(c, G, name)
    software(c, G)
    m = re.fullmatch(r'AOD1B_(\w+)_(\w+)_mmCU_(\d{4})_(\d\d)\.\w+', f)
    c.eq((G.get('project_version'), G.get('product_name'), G.get('product_type')),
        (a.release, a.product, 'gravity_field'), 'product')
    model = 'OMCT' if a.release in ('RL04', 'RL05') else 'MPIOM'
    c.eq(G.get('title'), {'atm': 'Atmospheric loading from ECMWF',
        'ocn': f'Oceanic loading from {model}', 'glo': 'Global atmospheric and oceanic loading',
        'oba': f'Ocean bottom pressure from {model}'}[a.product], 'title')
    earth(c, G, a.love, a.reference, {'RL06': 180}.get(a.release, 100))
    constants(c, G)
    gridded(c, V, 3)
    c.eq(V['time']['units'], f'hours since {m.group(3)}-{m.group(4)}-01T00:00:00', 'dates')
    c.eq((V['time'].get('calendar'), V['time'].get('standard_name')), ('standard', 'time'),
        'dates')


def geocenter(c, name, a, f, G, V, opened, files):
    if 'clm' in V:
        return errors_file(c, name, G, V)
    written(c, G, name)
    title = GRAVITY.strip()+' Geocenter Coefficients'
    c.eq(G.get('title'), title, 'title')
    more = mean_of(a)
    extra = [x for x in listed(G.get('lineage', [])) if x not in more and
        not re.match('GSM-2_|TN-', x)]
    processed(c, G, a, opened, G['title'], more+extra, product='GSM')
    c.eq(G.get('solver'), a.solver, 'solver')
    if name == 'calc_degree_one':
        c.eq(G.get('solution_type'), 'iterative' if a.iterative else 'single', 'solution')
        c.eq(G.get('eustatic_sea_level'), 'self_attraction_and_loading' if a.fingerprint
            else 'uniform_redistribution', 'solution')
        # files of ocean bottom pressure
        c.eq(bool(extra), a.ocean_model not in ('OMCT', 'MPIOM', None), 'ocean-files')
        known = {os.path.basename(p) for p in opened}
        c.ok(all(x in known or x.endswith(('.nc', '.H5')) for x in extra), 'ocean-files')
    for k, kind, m in (('C10', 'cosine', 0), ('C11', 'cosine', 1), ('S11', 'sine', 1)):
        c.eq((V[k]['units'], V[k]['long_name']), ('fully_normalized',
            f'{kind}_spherical_harmonic_of_degree_1,_order_{m}'), 'units')
    c.eq((V['time']['units'], V['month']['long_name']), ('years', 'GRACE_month'), 'dates')


SLR = {'CSR': 'M. Cheng, B. D. Tapley, and J. C. Ries', 'GSFC': 'B. D. Loomis, K. E. Rachlin',
    'GFZ': 'R. Koenig, P. Schreiner, and C. Dahle'}
FIGURE = {'CSR': 'M. Cheng, J. C. Ries, and B. D. Tapley', 'GFZ': 'C. Dahle and M. Murboeck'}


def header(c, name, a, path):
    """header of a file of geocenter coefficients"""
    with open(path, encoding='utf8') as f:
        text, _, rows = f.read().partition('# End of YAML header\n')
    V, inside, refs, k = {}, [], [], None
    for line in text.splitlines():
        m = re.match(r'( *)([^:]+?) *:(?: (.*))?$', line)
        if line.strip().startswith('- '):
            refs.append(line.strip()[2:])
        elif m:
            n = len(m.group(1))//2
            inside[n:] = [m.group(2)]
            V['/'.join(inside[1:])] = m.group(3)
    top = 'global_attributes/'
    product = f'{a.center} {a.release}'
    c.eq(V[top+'title'], f'{GRAVITY.strip()} Geocenter Coefficients {product}', 'header-title')
    c.eq(V[top+'product_version'], f'Release-{a.release[2:]}', 'header-version')
    month = [int(x.split()[-1]) for x in rows.splitlines() if x.strip()]
    for key, m in (('start', month[0]), ('end', month[-1])):
        c.eq(V[top+'time_coverage_'+key], f'{2002+(m-1)//12}-{(m-1)%12+1:02d}',
            'header-coverage')
    day = lambda s: (datetime.datetime.now()-datetime.timedelta(seconds=s)).strftime('%Y-%m-%d')
    c.ok(V[top+'date_created'] in (day(0), day(120)), 'header-date')
    k1 = a.kl or float(np.asarray(g.load_love_numbers(a.lmax, LOVE_NUMBERS=a.love,
        REFERENCE='CF', FORMAT='class').kl)[1])
    c.close(float(V['non-standard_attributes/love_number/value']), k1,
        'header-love-number', rtol=0, atol=6e-4)
    c.eq((V['dimensions/degree'], V['dimensions/order']), ('1', '1'), 'header-dimensions')
    aod = '_wAOD' in os.path.basename(path)
    c.eq('de-aliasing product has been restored' in V[top+'summary'], aod, 'header-restored')
    c.eq('restored using' in V[top+'source'], aod, 'header-restored')
    for key, table in (('slr_c20', SLR), ('slr_21', FIGURE)):
        for who, ref in table.items():
            c.eq(any(r.startswith(ref) for r in refs), getattr(a, key) == who,
                'header-references', (key, who))
    names = ['mid-epoch_time', 'C10', 'C11', 'S11']
    if name == 'monte_carlo_degree_one':
        names += ['eC10', 'eC11', 'eS11']
    for i, n in enumerate(names+['month']):
        c.eq(V[f'variables/{n}/comment'], ('1st', '2nd', '3rd', *(f'{j}th' for j in
            range(4, 9)))[i]+' column', 'header-columns')
    c.eq(sorted({x.split('/')[1] for x in V if x.count('/') > 1 and x.startswith('variables')}),
        sorted(names+['month']), 'header-columns')
    c.eq({len(x.split()) for x in rows.splitlines() if x.strip()}, {len(names)+1},
        'header-columns')


def combined(c, name, a, f, G, V, opened, files):
    written(c, G, name)
    software(c, G)
    c.eq(G.get('product_type'), 'gravity_field', 'product')
    if a.format.startswith('index'):
        with open(a.infile, encoding='utf8') as fid:
            want = [os.path.basename(x.split()[0]) for x in fid
                if x.strip() and not x.strip().startswith('#')]
    else:
        want = [os.path.basename(a.infile)]
    c.eq(sorted(listed(G.get('lineage'))), sorted(want), 'lineage')
    earth(c, G, a.love, a.reference, a.lmax)
    c.eq(int(G['max_order']), a.lmax if a.mmax is None else a.mmax, 'max-order')
    constants(c, G)
    if a.units in UNITS:
        gridded(c, V, a.units)


def converted(c, name, a, f, G, V, opened, files):
    written(c, G, name)
    software(c, G)
    c.eq(G.get('product_type'), 'gravity_field', 'product')
    c.eq(listed(G.get('lineage')), [os.path.basename(a.infile)], 'lineage')
    earth(c, G, a.love, a.reference, a.lmax)
    c.eq(int(G['max_order']), a.lmax if a.mmax is None else a.mmax, 'max-order')
    constants(c, G)
    coefficients(c, V)


def sea_level(c, name, a, f, G, V, opened, files):
    written(c, G, name)
    software(c, G)
    c.eq(G.get('title'), 'Sea_Level_Fingerprint', 'title')
    c.eq((listed(G.get('lineage')), G.get('land_sea_mask')),
        ([os.path.basename(a.infile)], os.path.basename(a.mask)), 'lineage')
    earth(c, G, a.love, a.reference, a.lmax)
    c.eq(int(G['iterations']), a.iterations, 'iterations')
    c.eq(G.get('earth_body_tide'), ('Wahr (1981)', 'Farrell (1972)')[a.body], 'body-tide')
    c.eq(G.get('earth_fluid_love'), ('Han and Wahr (1989)', 'Munk and MacDonald (1960)',
        'Munk and MacDonald (1960)', 'Lambeck (1980)')[a.fluid], 'fluid-love')
    c.eq(G.get('polar_motion_feedback'), 'Kendall et al. (2005)' if a.polar_feedback
        else None, 'polar-motion')


PROGRAMS = {'grace_spatial_maps': (X01, X01.monthly, maps, 24, 300),
    'grace_spatial_error': (X01, X01.errors, spatial_error, 10, 150),
    'scale_grace_maps': (X01, X01.scaled, scaled, 6, 60),
    'grace_mean_harmonics': (X02, X02.mean, mean, 14, 200),
    'regress_grace_maps': (X02, X02.regress, fitted, 6, 60),
    'piecewise_grace_maps': (X02, X02.piecewise, fitted, 6, 60),
    'calc_mascon': (X03, X03.mascons, mascon, 4, 40),
    'calc_sensitivity_kernel': (X03, X03.kernels, kernel, 4, 40),
    'dealiasing_global_uplift': (X04, X04.uplift, uplift, 2, 30),
    'calc_degree_one': (X06, X06.inversion, geocenter, 10, 120),
    'monte_carlo_degree_one': (X06, X06.sampled, geocenter, 6, 60),
    'grace_raster_grids': (X07, X07.raster, raster, 14, 150),
    'run_sea_level_equation': (X07, X07.fingerprint, sea_level, 12, 150),
    'combine_harmonics': (X01, X01.to_maps, combined, 14, 200),
    'convert_harmonics': (X01, X01.to_harmonics, converted, 14, 200)}


def observe(c, name, argv, root, oracle):
    global _seen
    c.check.events[name] += 1
    argv = [str(x) for x in argv]
    before = tree(root)
    geoid_toolkit.spatial.written.clear()
    _seen = []
    try:
        r = prog.attempt(name, argv)
    finally:
        opened, _seen = _seen, None
    c.ok(not r.failed, 'completes', (r.errors or [''])[-1][-600:])
    a = prog_arguments(name, argv)
    files = sorted(changed(before, tree(root)))
    c.note(program=name)
    for p in files:
        if p.endswith(('.nc', '.H5')):
            G, V = attributes(p)
            c.check.observed['files-described'] += 1
            oracle(c, name, a, os.path.basename(p), G, V, opened, files)
        elif p.endswith('.txt') and oracle is geocenter and 'month' not in p:
            with open(p, encoding='utf8') as f:
                told = f.read(7) == 'header:'
            if told:
                c.check.observed['headers-read'] += 1
                header(c, name, a, p)


class Namespace:
    def __init__(self, d):
        self.__dict__.update(d)


def prog_arguments(name, argv):
    return Namespace(parsed(name, argv))


def drive(c, name):
    module, case, oracle = PROGRAMS[name][:3]
    module.check.seed, module.check.tier = c.check.seed, c.check.tier
    sub = Case(module.check, f'made-{name}', c.index)
    c.tmp = sub.scratch()
    run = prog.run

    def once(other, program, argv, *a, **kw):
        if program != name:
            return run(other, program, argv, *a, **kw)
        observe(c, name, argv, os.path.realpath(c.tmp), oracle)
        raise Done
    prog.run = once
    try:
        case(sub)
    except Done:
        pass
    finally:
        prog.run = run


def register(name, quick, thorough):
    @check.section(name.replace('_', '-'), quick=quick, thorough=thorough)
    def section(c):
        drive(c, name)


for _name, _x in PROGRAMS.items():
    register(_name, _x[3], _x[4])


if __name__ == '__main__':
    check.main()
