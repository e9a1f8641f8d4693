"""W02: the notebooks calculate what was selected on their controls."""
import contextlib
import json
import os
import re
import sys
import types

import ipywidgets
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np

import gravity_toolkit as g
from rv.core import Check, OracleFailure
from rv import ref
from rv.setup import Choice, fit, mask_file, read_grid, series_file, static_file, \
    weights, SUFFIX
from checks import R08, X01

check = Check('W02', 'the code cells of the notebooks are executed in order on generated '
    'archives, with random selections on a stand-in for ipywidgets between the cells; '
    'grids, triangles, errors, currents, fits, output files, animation frames and shell '
    'commands are compared with an independent evaluation of the selections', ['the '
    'selected monthly fields are taken from grace_input_months (decided by R01 and R08), '
    'decorrelation from harmonics.destripe (M08), ocean functions from ocean_stokes '
    '(M10), currents from geostrophic_currents (M04) and fits from time_series.regress '
    '(T01)', 'IPython is not installed here: lines for the shell are expanded as it '
    'documents and recorded; coastlines are not drawn (they need a download)'])
FOLDER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(g.__file__))),
    'notebooks')
UNITS = ['cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar']
NAMES = ['Equivalent Water Thickness', 'Geoid Height', 'Elastic Crustal Uplift',
    'Gravitational Undulation', 'Equivalent Surface Pressure']
LABELS = ['cm', 'mm', 'mm', '\u03BCGal', 'mb']
# the kinds of files on the controls
KINDS = {'netCDF4': 'netCDF4', 'HDF5': 'HDF5', 'index-ascii': 'index (ascii)',
    'index-netCDF4': 'index (netCDF4)', 'index-HDF5': 'index (HDF5)'}


def cells(name):
    with open(os.path.join(FOLDER, f'{name}.ipynb'), encoding='utf8') as f:
        nb = json.load(f)
    for cell in nb['cells']:
        if cell['cell_type'] == 'code':
            lines = ''.join(cell['source']).split('\n')
            for i, s in enumerate(lines):
                m = re.match(r'(\s*)([!%])(.*)', s)
                if m:
                    lines[i] = m[1] + (f'_shell({m[3]!r})' if m[2] == '!' else 'pass')
            yield '\n'.join(lines)


class Animation:
    """keeps what every frame shows"""
    made = []

    def __init__(self, fig, func, frames=None, **kw):
        self.fig, self.frames = fig, []
        Animation.made.append(self)
        for i in range(frames) if isinstance(frames, (int, np.integer)) else frames:
            func(i)
            self.frames.append((images(fig), words(fig)))

    def to_jshtml(self, *a, **k):
        return '<div></div>'

    to_html5_video = to_jshtml


def images(fig):
    return [np.ma.array(im.get_array(), copy=True) for ax in fig.axes for im in ax.images]


def words(fig):
    return [t.get_text() for t in fig.findobj(matplotlib.text.Text) if t.get_text()]


class Notebook:
    """runs the cells; hooks select on the controls as soon as they appear"""
    def __init__(self, c, name, hooks):
        import cartopy.mpl.geoaxes as geo
        import matplotlib.animation as ma
        self.c, self.name, self.shell, self.shared = c, name, [], []
        self.figures = []
        ns = self.ns = {'__name__': '__main__', '_shell': self.command}
        old = {k: sys.modules.get(k) for k in ('IPython', 'IPython.display')}
        top, disp = types.ModuleType('IPython'), types.ModuleType('IPython.display')
        disp.HTML = disp.Latex = disp.display = lambda *a, **k: a[0] if a else None
        disp.clear_output = lambda *a, **k: None
        top.display, top.version_info, top.get_ipython = disp, (8, 0, 0), lambda: None
        todo = dict(hooks)
        keep = ma.FuncAnimation, geo.GeoAxes.coastlines, plt.show, \
            g.utilities.from_figshare
        rc = dict(matplotlib.rcParams)
        Animation.made = []
        plt.close('all')
        try:
            sys.modules.update({'IPython': top, 'IPython.display': disp})
            ma.FuncAnimation = Animation
            geo.GeoAxes.coastlines = lambda *a, **k: None
            plt.show = lambda *a, **k: self.show()
            g.utilities.from_figshare = lambda *a, **k: self.shared.append((a, k))
            for i, source in enumerate(cells(name)):
                c.check.events[name+' cells'] += 1
                try:
                    exec(compile(source, f'{name} cell {i}', 'exec'), ns)
                except Exception as e:
                    c.nobs += 1
                    raise OracleFailure('completes', f'{name} cell {i}: '
                        f'{type(e).__name__}: {e}', {'cell': source[:300]}) from e
                for key in list(todo):
                    if todo[key](ns):
                        del todo[key]
            c.ok(True, 'completes')
            self.animations = Animation.made
            c.eq(list(todo), [], 'controls', f'{name}: controls that never appeared')
        finally:
            ma.FuncAnimation, geo.GeoAxes.coastlines, plt.show, \
                g.utilities.from_figshare = keep
            for k, v in old.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            matplotlib.rcParams.update({k: v for k, v in rc.items() if
                not k.startswith(('backend', 'interactive'))})
            plt.close('all')

    def show(self):
        for n in plt.get_fignums():
            f = plt.figure(n)
            f.canvas.draw()
            self.figures.append(f)

    def command(self, line):
        """variables of a shell line, replaced by their text"""
        def value(m):
            parts = m[1].split('.')
            try:
                v = self.ns[parts[0]]
                for p in parts[1:]:
                    v = getattr(v, p)
            except (KeyError, AttributeError):
                return m[0]
            return str(v)
        self.shell.append(re.sub(r'\$(\w[\w.]*)', value, line))


class Plan:
    """an archive and the selections for a notebook"""
    def __init__(self, c, months=None, least=2, high=True):
        proc = c.pick('CSR', 'JPL', 'GFZ')
        s = self.s = Choice(c, months=months, proc=proc, least=least, dset=c.pick('GSM',
            'GSM', 'GAC', 'GAD'))
        self.c = c
        # what the controls do not offer
        if s.deg1 not in ('Tellus', 'UCI') or 'DEG1_FILE' in s.kw or 'MODEL_DEG1' in s.kw:
            s.deg1 = None
        s.kw = {k: v for k, v in s.kw.items() if k in ('POLE_TIDE', 'ATM') or
            v == 'CSR' and k in ('SLR_21', 'SLR_22')}
        if s.s20 == 'GFZ':
            s.s20 = None
        if s.s20 == 'GSFC' and s.L >= 3 and c.chance(.5):
            s.kw['SLR_C30'] = 'GSFC'
        # dates of the product and of the one that is shown first
        g.grace_date(s.base, PROC=s.m.proc, DREL=s.m.drel, DSET=s.m.dset, OUTPUT=True)
        first = os.path.join(s.base, 'CSR', 'RL06', 'GSM')
        if not os.path.exists(first):
            os.makedirs(first)
            with open(os.path.join(first, 'CSR_RL06_DATES.txt'), 'w') as f:
                f.write('Mid-date  Month  Start_Day  End_Day  Total_Days\n')
                for x in range(4, 8):
                    f.write(f'{2002+(x-.5)/12:13.8f} {x:03d} {2002:8d} {1:03d}'
                        f'{2002:8d} {28:03d} {28:8d}\n')
        for p in {(s.m.proc, s.m.drel, d) for d in ('GSM', 'GAC', 'GAD')} | {
                (s.m.proc, r, 'GSM') for r in ('RL04', 'RL05', 'RL06')}:
            d = os.path.join(s.base, *p)
            name = os.path.join(d, f'{p[0]}_{p[1]}_DATES.txt')
            if not os.path.exists(d):
                os.makedirs(d)
                with open(os.path.join(first, 'CSR_RL06_DATES.txt')) as f, \
                        open(name, 'w') as h:
                    h.write(f.read())
        self.update = c.chance(.3)
        self.endpoint = c.pick('s3', 'data')
        self.hooks = dict(directory=self.directory, product=self.product,
            options=self.options)

    def directory(self, ns):
        w = ns.get('widgets')
        if w is None:
            return False
        w.directory_label.value = self.s.base
        w.update.value = self.update
        w.endpoint.value = self.endpoint
        return True

    def product(self, ns):
        w, m = ns.get('widgets'), self.s.m
        if not hasattr(w, 'months'):
            return False
        w.center.value, w.release.value, w.product.value = m.proc, m.drel, m.dset
        # the list of months follows the center and release
        w.update_months(None)
        self.c.eq(list(w.months.options), [f'{x:03d}' for x in m.months], 'months')
        w.months.value = [f'{x:03d}' for x in self.s.used]
        return True

    def options(self, ns):
        w, s = ns.get('widgets'), self.s
        if not hasattr(w, 'C50'):
            return False
        w.lmax.value = s.L
        w.mmax.value = s.order
        w.geocenter.value = s.deg1 or '[none]'
        w.C20.value = s.s20 or '[none]'
        for key, k in dict(CS21='SLR_21', CS22='SLR_22', C30='SLR_C30', C40='SLR_C40',
                C50='SLR_C50').items():
            getattr(w, key).value = s.kw.get(k) or '[none]'
        w.pole_tide.value = 'POLE_TIDE' in s.kw
        w.atm.value = 'ATM' in s.kw
        return True

    def corrections(self, units=True, grid=True, remove=True, output=True):
        """selections that correct and present the fields"""
        c, s = self.c, self.s
        L, M = s.L, s.order
        set_ = self.set_ = {}
        C, S = s.cs()
        C, S = C-C.mean(axis=2)[..., None], S-S.mean(axis=2)[..., None]
        destripe = L > 5 and c.chance(.4)
        set_['destripe'] = destripe
        self.ds = '_FL' if destripe else ''
        if destripe:
            C, S = self.filter(C, S)
        self.radius = c.pick(0, 0, c.int(200, 1000))
        set_['gaussian'] = float(self.radius)
        self.gia = ''
        if remove:
            A, B = self.remove(c, destripe)
            C, S = C-A, S-B
            if c.chance(.5):
                form = c.pick('ascii', 'netCDF4', 'HDF5')
                f = os.path.join(s.base, 'model_rate.'+SUFFIX[form])
                a, b = ref.random_coeffs(c.rng, L+1, L+1, scale=1e-10)
                h = g.harmonics(lmax=L+1, mmax=L+1)
                h.clm, h.slm = a, b
                h.to_file(f, format=form, date=False, title='GIA_model_A')
                self.gia = '_model_rate' if form == 'ascii' else '_GIA_model_A'
                rate = s.time-2003.3
                C = C-fit(a, L, M)[..., None]*rate
                S = S-fit(b, L, M)[..., None]*rate
                set_['GIA_label'], set_['GIA'] = f, form
        self.clm, self.slm = C, S
        if units:
            n = self.unit = c.int(0, 4) if units is True else c.int(0, units-1)
            set_['units'] = n
        if grid:
            d = self.d = c.pick(10.0, 15.0, 12.0, 20.0, 30.0, 7.5, 22.5)
            k = c.int(0, 1)
            set_['spacing'], set_['interval'] = d, k
            n = round(360/d), round(180/d)
            self.lon = -180+d*np.arange(n[0]+1) if k == 0 else -180+d/2+d*np.arange(n[0])
            self.lat = 90-d*np.arange(n[1]+1) if k == 0 else 90-d/2-d*np.arange(n[1])
        self.form = '[None]'
        if output:
            self.form = set_['output_format'] = c.pick('[None]', 'netCDF4', 'HDF5')
        self.hooks['corrections'] = self.correct
        s.note(set={k: str(v)[-40:] for k, v in set_.items()}, update=self.update)

    def filter(self, C, S):
        h = g.harmonics(lmax=self.s.L, mmax=self.s.order)
        h.clm, h.slm = C.copy(), S.copy()
        h.time, h.month = self.s.time, np.array(self.s.used)
        h = h.destripe()
        return np.asarray(h.clm), np.asarray(h.slm)

    def remove(self, c, destripe):
        s, set_ = self.s, self.set_
        L, M = s.L, s.order
        tc, ts = np.zeros((2, L+1, M+1, len(s.used)))
        if c.chance(.5):
            return tc, ts
        ocean = c.chance(.4)
        if ocean:
            mask = mask_file(c, s.base)
            set_['redistribute_removed'], set_['mask_label'] = True, mask
            o = g.ocean_stokes(mask, L, MMAX=M, LOVE=self.love())
        months = sorted(set(s.used) | set(range(s.used[0]-c.int(0, 2),
            s.used[-1]+1+c.int(0, 2))))
        times = np.round(2002+(np.array(months)-.5)/12, 4)
        kind = c.pick(list(KINDS))
        files = []
        for j in range(c.int(1, 3)):
            l0 = L+c.int(0, 2)
            if kind.startswith('index'):
                form = kind.split('-')[1]
                A, B, lines = [], [], []
                for i, gm in enumerate(months):
                    f = os.path.join(s.base, f'rm{j}_{gm:03d}.{SUFFIX[form]}')
                    a, b = static_file(c, f, l0, l0, form, dated=(times[i], gm))
                    A.append(a), B.append(b)
                    lines.append(f)
                A, B = np.stack(A, -1), np.stack(B, -1)
                path = os.path.join(s.base, f'index{j}.txt')
                with open(path, 'w') as f:
                    f.write('\n'.join(lines)+'\n')
            else:
                path = os.path.join(s.base, f'rm{j}.{SUFFIX[kind]}')
                A, B = series_file(c, path, l0, l0, kind, months, times)
            k = [months.index(x) for x in s.used]
            A, B = fit(A[..., k], L, M), fit(B[..., k], L, M)
            if ocean:
                q = A[0, 0]/o.clm[0, 0]
                A, B = A-q*np.asarray(o.clm)[..., None], B-q*np.asarray(o.slm)[..., None]
            tc, ts = tc+A, ts+B
            files.append(path)
        set_['remove_label'], set_['remove_format'] = ','.join(files), KINDS[kind]
        return self.filter(tc, ts) if destripe else (tc, ts)

    def correct(self, ns):
        w = ns.get('widgets')
        if not hasattr(w, 'gaussian'):
            return False
        for k, v in self.set_.items():
            o = getattr(w, k)
            if k in ('units', 'interval'):
                o.index = v
            else:
                o.value = v
        return True

    def love(self):
        path = g.utilities.get_data_path(['data', 'love_numbers'])
        return g.read_love_numbers(path, LMAX=self.s.L, HEADER=2, COLUMNS=['l', 'hl', 'kl',
            'll'], REFERENCE='CF', FORMAT='tuple')

    def factor(self, unit):
        return (ref.factors_harmonic(self.s.L, *self.love())[unit] *
            weights(self.radius, self.s.L))[:, None]

    def maps(self):
        f = self.factor(UNITS[self.unit])
        return np.stack([ref.synth(self.clm[..., i]*f, self.slm[..., i]*f, self.lon,
            self.lat).T for i in range(len(self.s.used))], axis=-1)

    def updated(self, nb):
        """shell commands of an update of the archive"""
        c, base = self.c, self.s.base
        if not self.update:
            c.eq((nb.shell, nb.shared), ([], []), 'no-update')
            return
        sync = [x for x in nb.shell if 'podaac_cumulus' in x]
        c.eq(len(sync), 1, 'update')
        c.eq(sorted(sync[0].split()[1:]), [f'--directory={base}',
            f'--endpoint={self.endpoint}'], 'update-arguments')
        date = [x.split() for x in nb.shell if 'run_grace_date' in x]
        c.ok(len(date) == 1 and f'--directory={base}' in date[0], 'update-dates',
            got=date)
        c.ok(len(nb.shared) == 1 and str(nb.shared[0][0][0]) == base, 'update-geocenter',
            got=str(nb.shared))


def colors(c, key, sel):
    """selections on a color map control"""
    def hook(ns):
        m = ns.get(key)
        if m is None:
            return False
        if m.range.max-m.range.min >= 4 and c.chance(.5):
            a = c.int(m.range.min, m.range.max-1)
            m.range.value = (a, c.int(a+1, m.range.max))
        lo, hi = m.range.value
        # another variable keeps the step
        if c.chance(.3) or hi-lo > 40*m.step.value:
            m.step.value = (hi-lo)//c.int(2, 12)
        if c.chance(.5):
            m.name.value = c.pick('RdBu', 'viridis', 'hot', 'Blues')
        m.reverse.value = c.chance(.4)
        sel[key] = m
        return True
    return hook


def shown(c, image, m, clim=None):
    """colors of an image"""
    want = m.name.value+('_r' if m.reverse.value else '')
    c.eq(image.get_cmap().name, want, 'colors')
    c.eq(tuple(float(x) for x in image.get_clim()), tuple(float(x) for x in
        (clim or m.range.value)), 'color-range')


def stamp(gm):
    return f'{2002+(gm-1)//12:4d}\u2013{(gm-1) % 12+1:02d}'


def frames(c, p, a, fields):
    """every month is shown with its date"""
    c.eq(len(a.frames), len(p.s.used), 'frames')
    for i, (got, text) in enumerate(a.frames):
        c.ok(stamp(p.s.used[i]) in text, 'frame-date', f'{stamp(p.s.used[i])} in {text}')
        for z, want in zip(got[:len(fields)], fields):
            same(c, z, want[..., i], 'frame')


def same(c, got, want, key):
    bad = np.ma.getmaskarray(np.ma.masked_invalid(got))
    c.eq(bad.tolist(), np.ma.getmaskarray(np.ma.masked_invalid(want)).tolist(), key+'-mask')
    a, b = np.where(bad, 0, np.ma.getdata(got)), np.where(bad, 0, np.ma.getdata(want))
    c.close(a, b, key, rtol=1e-7, atol=1e-8*np.abs(b).max()+1e-30)


def series(c):
    """months for which a fit is determined"""
    n = c.int(16, 22)
    lo = c.pick(4, 20, 60, 115, 190, c.int(4, 200))
    return list(range(lo, lo+n))


@check.section('maps', quick=14, thorough=250)
def maps(c):
    """maps of the months, their file and fit"""
    order = c.int(0, 4)
    cyc = {k: c.chance(.5) for k in ('Annual', 'Semi-Annual')}
    # tides alias in each mission: months of both are needed
    terms = c.chance(.3)
    p = Plan(c, months=list(range(180, 207)) if terms else series(c), least=26 if terms
        else 15)
    p.corrections()
    s, sel = p.s, {}

    def fits(ns):
        if 'termsCheckbox' not in ns:
            return False
        ns['orderText'].value = order
        for k, v in cyc.items():
            ns['cyclicCheckbox'][k].value = v
        ns['termsCheckbox'].value = terms
        return True

    def variable(ns):
        if 'variableDropdown' not in ns:
            return False
        w, m, z = ns['variableDropdown'], ns['cmap2'], ns['out'].data
        names = sel['names'] = list(w.options)
        c.eq(w.value, names[order], 'fit-first')
        if c.chance(.6):
            k = c.int(0, len(names)-1)
            lo, hi = int(np.min(z[:, :, k])), int(np.ceil(np.max(z[:, :, k])))
            if k != w.index:
                w.value = names[k]
                c.eq((m.range.min, m.range.max, tuple(m.range.value), m.step.max),
                    (lo, hi, (lo, hi), max(hi-lo, 1)), 'fit-range')
        sel['shown'] = w.index
        return True
    p.hooks.update(fits=fits, variable=variable, cmap1=colors(c, 'cmap1', sel),
        cmap2=colors(c, 'cmap2', sel))
    before = set(os.listdir(s.m.dir))
    nb = Notebook(c, 'GRACE-Spatial-Maps', p.hooks)
    p.updated(nb)
    want = p.maps()
    grid = nb.ns['grid']
    c.close(grid.lon, p.lon, 'lon', rtol=0, atol=1e-9)
    c.close(grid.lat, p.lat, 'lat', rtol=0, atol=1e-9)
    same(c, grid.data, want, 'maps')
    c.close(grid.time, s.time, 'time', rtol=0, atol=1e-8)
    c.eq([int(x) for x in grid.month], s.used, 'month')
    new = sorted(set(os.listdir(s.m.dir))-before-{f'{s.m.proc}_{s.m.drel}_DATES.txt'})
    if p.form == '[None]':
        c.eq(new, [], 'no-file')
    else:
        unit = ['cmwe', 'mmGH', 'mmCU', '\u03BCGal', 'mbar'][p.unit]
        name = (f'{s.m.proc}_{s.m.drel}_{s.m.dset}{p.gia}{s.read()["title"]}_{unit}_L{s.L}' +
            (f'M{s.order}' if s.order != s.L else '') +
            (f'_r{p.radius}km' if p.radius else '')+p.ds +
            f'_{s.used[0]:03d}-{s.used[-1]:03d}.{SUFFIX[p.form]}')
        c.eq([x.replace('__', '_') for x in new], [name.replace('__', '_')], 'file')
        v = read_grid(os.path.join(s.m.dir, new[0]), p.form)
        X01.maps(c, v, p.form, want, p.lon, p.lat, s.time, True, key='file')
        c.eq(str(v['units']), unit, 'units')
    frames(c, p, nb.animations[0], [want])
    image = [im for ax in nb.animations[0].fig.axes for im in ax.images][0]
    shown(c, image, sel['cmap1'])
    text = words(nb.animations[0].fig)
    c.ok(NAMES[p.unit] in text and LABELS[p.unit] in text, 'labels', got=str(text))
    # fits
    t = s.time
    kw = dict(ORDER=order, CYCLES=[v for k, v in (('Annual', 1.0), ('Semi-Annual', .5))
        if cyc[k]], TERMS=g.time_series.aliasing_terms(t) if terms else [])
    n = order+1+2*len(kw['CYCLES'])+len(kw['TERMS'])
    out = nb.ns['out']
    c.eq(np.shape(out.data), want.shape[:2]+(n,), 'fit-shape')
    for i in c.rng.permutation(want.shape[0])[:4]:
        for j in c.rng.permutation(want.shape[1])[:4]:
            b = g.time_series.regress(t, want[i, j], **kw)['beta']
            c.close(out.data[i, j], b, 'fit', rtol=1e-4, atol=1e-5*max(np.abs(b).max(),
                np.abs(want[i, j]).max()))
    c.eq(len(sel['names']), n, 'fit-names', str(sel['names']))
    c.eq(len(set(sel['names'])), n, 'fit-names', str(sel['names']))
    fig = nb.figures[-1]
    image = [im for ax in fig.axes for im in ax.images][0]
    c.ok(any(x.startswith(NAMES[p.unit]) for x in words(fig)), 'fit-label')
    same(c, image.get_array(), out.data[:, :, sel['shown']], 'fit-image')
    shown(c, image, sel['cmap2'])


@check.section('error', quick=8, thorough=150)
def error(c):
    """errors from the scatter about the smooth part"""
    p = Plan(c, months=series(c), least=15)
    p.corrections(units=False, remove=False, output=False)
    s, sel = p.s, {}
    p.hooks['cmap'] = colors(c, 'cmap', sel)
    nb = Notebook(c, 'GRACE-Spatial-Error', p.hooks)
    p.updated(nb)
    D, n, t = X01.noise_of(s, p.clm, p.slm)
    want = X01.spread(D[0], D[1], p.factor('mmwe')/np.sqrt(n), p.lon, p.lat, 0)
    grid = nb.ns['grid']
    c.close(grid.lon, p.lon, 'lon', rtol=0, atol=1e-9)
    c.close(grid.lat, p.lat, 'lat', rtol=0, atol=1e-9)
    same(c, grid.data, want, 'errors')
    f = p.factor('mmwe')
    amp = np.sqrt(((D[0]*f)**2+(D[1]*f)**2).sum(axis=1))
    line = [x for fig in nb.figures for ax in fig.axes for x in ax.lines][0]
    c.eq([int(x) for x in line.get_xdata()], list(range(1, s.L+1)), 'degrees')
    c.close(line.get_ydata(), amp[1:], 'amplitude', rtol=1e-7)
    image = [im for fig in nb.figures for ax in fig.axes for im in ax.images][0]
    same(c, image.get_array(), want, 'image')
    shown(c, image, sel['cmap'])


@check.section('triangles', quick=12, thorough=250)
def triangles(c):
    """coefficients of the months"""
    p = Plan(c)
    p.corrections(units=2, grid=False, output=False)
    s, sel = p.s, {}
    p.hooks['cmap'] = colors(c, 'cmap', sel)
    nb = Notebook(c, 'GRACE-Harmonic-Plots', p.hooks)
    p.updated(nb)
    f = p.factor(UNITS[p.unit])[..., None]
    C, S = p.clm*f, p.slm*f
    want = np.ma.masked_all((s.L+1, 2*s.L+1, len(s.used)))
    for m in range(s.order+1):
        for l in range(m, s.L+1):
            if m:
                want[l, s.L-m] = S[l, m]
            want[l, s.L+m] = C[l, m]
    same(c, nb.ns['triangle'], want, 'triangle')
    frames(c, p, nb.animations[0], [want])
    fig = nb.animations[0].fig
    image = [im for ax in fig.axes for im in ax.images][0]
    shown(c, image, sel['cmap'], (-1, 1))
    text = words(fig)
    c.ok(NAMES[p.unit] in text and LABELS[p.unit] in text, 'labels', got=str(text))


def land(c, base):
    """smoothed land function, defined on land"""
    import netCDF4
    d = c.pick(10.0, 15.0, 6.0)
    half = c.chance(.5)
    lon = (d/2 if half else 0)+d*np.arange(round(360/d))
    lat = 90-d/2-d*np.arange(round(180/d))
    z = np.where(c.rng.random((len(lat), len(lon))) < .4, 1.0, 0.0)
    os.makedirs(os.path.join(base, 'data'), exist_ok=True)
    path = os.path.join(base, 'data', 'land_fcn_300km.nc')
    with netCDF4.Dataset(path, 'w') as f:
        f.createDimension('lat', len(lat))
        f.createDimension('lon', len(lon))
        f.createVariable('lat', 'f8', ('lat',))[:] = lat
        f.createVariable('lon', 'f8', ('lon',))[:] = lon
        f.createVariable('LSMASK', 'f8', ('lat', 'lon'), fill_value=0.0)[:] = z
    return path, lon, lat, z


@contextlib.contextmanager
def packaged(path):
    """another file in the place of a packaged one"""
    old = g.utilities.get_data_path

    def where(rel):
        p = old(rel)
        return type(p)(path) if p.name == os.path.basename(path) else p
    g.utilities.get_data_path = where
    try:
        yield
    finally:
        g.utilities.get_data_path = old


@check.section('currents', quick=8, thorough=150)
def currents(c):
    """geostrophic currents of the months over the ocean"""
    p = Plan(c)
    p.corrections(units=False, grid=False, output=False)
    s, sel = p.s, {}
    path, lon, lat, z = land(c, s.base)
    p.hooks['cmap1'] = colors(c, 'cmap1', sel)
    with packaged(path):
        nb = Notebook(c, 'GRACE-Geostrophic-Maps', p.hooks)
    p.updated(nb)
    grid = nb.ns['grid']
    x = np.asarray(grid.lon, float)
    c.ok(np.all(np.diff(x) > 0) and x.min() >= -180 and x.max() <= 180.0, 'lon', got=x)
    col = [int(np.argmin(np.abs((lon-v+180) % 360-180))) for v in x]
    c.close(lon[col] % 360, x % 360, 'lon', rtol=0, atol=1e-9)
    c.eq(sorted(set(col)), list(range(len(lon))), 'lon-every')
    c.close(grid.lat, lat, 'lat', rtol=0, atol=1e-9)
    ok = np.abs(lat) > 10
    want = np.full((len(lat), len(x), 2, len(s.used)), np.nan)
    for i in range(len(s.used)):
        u = g.geostrophic_currents(p.clm[..., i], p.slm[..., i], x, lat[ok], LMAX=s.L,
            MMAX=s.order, RAD=p.radius, LOVE=p.love())
        want[ok, :, :, i] = u.transpose(1, 0, 2)
    want[z[:, col] > 0] = np.nan
    same(c, grid.data, want, 'currents')
    frames(c, p, nb.animations[0], [want[:, :, 0], want[:, :, 1]])
    for im in [im for ax in nb.animations[0].fig.axes[:2] for im in ax.images]:
        shown(c, im, sel['cmap1'])
