"""W01: controls of the notebooks state the data sets that are published."""
import os
import pathlib
import types

import ipywidgets
import matplotlib
import numpy as np

import gravity_toolkit as g
from rv.core import Check

tools = g.tools
check = Check('W01', 'the controls of the notebooks are driven through random histories of '
    'selections on a stand-in for ipywidgets; after every selection the state of all '
    'controls is compared with a table of the published data sets and with the files in '
    'the directory', ['ipywidgets is not installed here: the stand-in (rv/stub) keeps '
    'values, limits, options and observers as documented, and notifies when a control is '
    'consistent; months after a change of the product alone are not judged'])
RELEASES = {p: ['RL04', 'RL05', 'RL06'] for p in ('CSR', 'GFZ', 'JPL')}
RELEASES['CNES'] = ['RL01', 'RL02', 'RL03', 'RL04', 'RL05']
CNES = dict(RL01=['GAC', 'GSM'], RL02=['GAA', 'GAB', 'GSM'], RL03=['GAA', 'GAB', 'GSM'],
    RL04=['GSM'], RL05=['GAA', 'GAB', 'GSM'])
FIVE = ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
DEGREE = dict(CNES=dict(RL01=50, RL02=50, RL03=80, RL04=90, RL05=90),
    CSR=dict(RL04=60, RL05=60, RL06=60), JPL=dict(RL04=60, RL05=60, RL06=60),
    GFZ=dict(RL04=90, RL05=90, RL06=60))


def products(center, release):
    return CNES[release] if center == 'CNES' else ['GAC', 'GAD', 'GSM'] if \
        center == 'CSR' else FIVE


def archive(c, base):
    """dates of all data sets, with different months each"""
    months = {}
    for p in RELEASES:
        for r in RELEASES[p]:
            for s in FIVE:
                # the controls start with three products for every center
                m = np.flatnonzero(c.rng.random(c.int(3, 260)) < c.rng.uniform(.1, 1)) + 1
                m = m if len(m) else np.array([c.int(1, 200)])
                d = os.path.join(base, p, r, s)
                os.makedirs(d)
                months[p, r, s] = [f'{x:03d}' for x in m]
                with open(os.path.join(d, f'{p}_{r}_DATES.txt'), 'w') as f:
                    f.write('Mid-date  Month  Start_Day  End_Day  Total_Days\n')
                    for x in m:
                        y = 2002 + (x-1)//12
                        f.write(f'{2002+(x-.5)/12:13.8f} {x:03d} {y:8d} {1:03d}'
                            f'{y:8d} {28:03d} {28:8d}\n')
    return months


def state(w):
    return {k: (getattr(getattr(w, k), 'value'), getattr(getattr(w, k), 'options', None),
        getattr(getattr(w, k), 'max', None)) for k in ('center', 'release', 'product',
        'months', 'lmax', 'mmax', 'pole_tide', 'atm', 'geocenter', 'C20', 'CS21', 'CS22',
        'C30', 'C40', 'C50')}


@check.section('history', quick=40, thorough=400)
def history(c):
    base = c.scratch()
    months = archive(c, base)
    center = c.pick(list(RELEASES))
    release = c.pick(RELEASES[center])
    product = default = c.pick('GSM', c.pick(products(center, release)))
    top = DEGREE[center][release]
    here = c.chance(.2)
    old = os.getcwd()
    kw = dict(directory=base if c.chance(.5) else pathlib.Path(base),
        defaults=[center, release, product, top])
    if here and (center, release, product, top) == ('CSR', 'RL06', 'GSM', 60):
        kw = {}
    try:
        os.chdir(base)
        w = tools.widgets(**kw)
    finally:
        os.chdir(old)
    c.eq(w.base_directory, pathlib.Path(base), 'directory')
    w.select_product()
    now = [center, release, product]
    c.eq([w.center.value, w.release.value, w.product.value], now, 'start')
    c.eq(list(w.release.options), RELEASES[center], 'start-releases')
    c.eq(list(w.product.options), products(center, release), 'start-products')
    c.eq(list(w.months.options), months[tuple(now)], 'start-months')
    c.eq(list(w.months.value), months[tuple(now)], 'start-months')
    options = c.chance(.85)
    c.eq(w.endpoint.value in w.endpoint.options, True, 'endpoint')
    if options:
        w.select_options()
        c.eq([w.lmax.value, w.lmax.max, w.mmax.value, w.mmax.max], [top]*4,
            'start-degree')
        gsm = product == 'GSM'
        c.eq(w.pole_tide.value, gsm and release == 'RL05', 'start-pole-tide')
        c.eq(w.atm.value, release == 'RL05', 'start-atm')
        c.eq([w.geocenter.value, w.C20.value, w.C30.value], ['UCI', 'GSFC', 'GSFC'] if
            gsm else ['[none]']*3, 'start-replaced')
        c.eq([getattr(w, k).value for k in ('CS21', 'CS22', 'C40', 'C50')],
            ['[none]']*4, 'start-kept')
    trail = [' '.join(now)]
    for k in range(c.int(3, 14)):
        kinds = ['center', 'release', 'product']
        if options:
            kinds += ['lmax', 'lmax', 'mmax', 'pole_tide', 'atm', 'months', 'C20']
        else:
            kinds += ['months']
        act = c.pick(kinds)
        before = state(w) if options else None
        if act == 'center':
            free = [p for p in RELEASES if p != w.center.value and
                all(default in products(p, r) for r in RELEASES[p])]
            if not free:
                continue
            new = c.pick(free)
            trail.append(new)
            w.center.value = new
            now = [new, RELEASES[new][-1], default]
            c.eq(list(w.release.options), RELEASES[new], 'releases')
        elif act == 'release':
            free = [r for r in w.release.options if r != w.release.value and
                default in products(now[0], r)]
            if not free:
                continue
            new = c.pick(free)
            trail.append(new)
            w.release.value = new
            now = [now[0], new, default]
        elif act == 'product':
            free = [s for s in w.product.options if s != w.product.value]
            if not free:
                continue
            new = c.pick(free)
            trail.append(new)
            w.product.value = new
            now[2] = new
        elif act == 'lmax':
            v = c.int(0, w.lmax.max) if c.chance(.8) else w.lmax.max + c.int(1, 50)
            trail.append(f'lmax={v}')
            same = min(v, w.lmax.max) == w.lmax.value
            w.lmax.value = v
            v = min(v, DEGREE[now[0]][now[1]])
            c.eq([w.lmax.value, w.mmax.max], [v]*2, 'order', str(trail))
            c.ok(w.mmax.value == v or same and w.mmax.value == before['mmax'][0],
                'order', str(trail))
        elif act == 'mmax':
            v = c.int(0, w.mmax.max) if c.chance(.8) else w.mmax.max + c.int(1, 50)
            trail.append(f'mmax={v}')
            w.mmax.value = v
            c.eq(w.mmax.value, min(v, w.lmax.value), 'order-limit', str(trail))
        elif act == 'months':
            pick = [m for m in w.months.options if c.chance(.5)]
            w.months.value = pick
            trail.append('months')
        elif act in ('pole_tide', 'atm'):
            getattr(w, act).value = not getattr(w, act).value
            trail.append(act)
        else:
            w.C20.value = c.pick(w.C20.options)
            trail.append('C20')
        where = str(trail)
        c.eq([w.center.value, w.release.value, w.product.value], now, 'selected', where)
        moved = act in ('center', 'release')
        if moved:
            c.eq(list(w.months.options), months[tuple(now)], 'months', where)
            c.eq(list(w.months.value), months[tuple(now)], 'all-months', where)
            c.eq(list(w.product.options), products(*now[:2]), 'products', where)
        if not options:
            continue
        if moved:
            n = DEGREE[now[0]][now[1]]
            c.eq([w.lmax.value, w.lmax.max, w.mmax.max], [n]*3, 'degree', where)
            c.ok(w.mmax.value == n or w.mmax.value == before['mmax'][0] and
                before['lmax'][0] == n, 'degree', where)
            c.eq(w.atm.value, now[1] == 'RL05', 'atm', where)
        if moved or act == 'product':
            c.eq(w.lmax.max, DEGREE[now[0]][now[1]], 'degree-limit', where)
            c.eq(w.pole_tide.value, now[1] == 'RL05' and now[2] == 'GSM', 'pole-tide',
                where)
        after = state(w)
        follow = {'center': ('center', 'release', 'product', 'months', 'lmax', 'mmax',
            'pole_tide', 'atm'), 'release': ('release', 'product', 'months', 'lmax',
            'mmax', 'pole_tide', 'atm'), 'product': ('product', 'months', 'lmax', 'mmax',
            'pole_tide', 'atm'), 'lmax': ('lmax', 'mmax')}.get(act, (act,))
        for key in after:
            if key not in follow:
                c.eq(after[key], before[key], 'kept', f'{key} after {where}')
        c.check.events[act] += 1
    c.note(history=trail, options=options)


@check.section('paths', quick=60, thorough=600)
def paths(c):
    """files and directories that are typed or picked"""
    root = c.scratch()
    w = tools.widgets(directory=root)
    w.select_corrections()
    opened = []

    class Dialog:
        @staticmethod
        def askdirectory(**kw):
            return opened[0]

        @staticmethod
        def askopenfilename(**kw):
            return opened[0]
    window = types.SimpleNamespace(withdraw=lambda: None, call=lambda *a: None,
        destroy=lambda: None, update=lambda: None, attributes=lambda *a: None)
    display = types.SimpleNamespace(clear_output=lambda *a, **k: None)
    keep = {k: getattr(tools, k, None) for k in ('Tk', 'filedialog', 'IPython')}
    tools.Tk, tools.filedialog = lambda *a, **k: window, Dialog
    tools.IPython = types.SimpleNamespace(display=display)
    shown = os.environ.get('DISPLAY')
    home, cwd = os.environ.get('HOME'), os.getcwd()
    try:
        os.environ['HOME'] = root
        os.chdir(root)
        if c.chance(.5):
            os.environ['DISPLAY'] = ':99'
        else:
            os.environ.pop('DISPLAY', None)
        w = tools.widgets(directory=root)
        w.select_corrections()
        for box, label, button in ((w.directory, w.directory_label, w.directory_button),
                (w.GIA_file, w.GIA_label, w.GIA_button),
                (w.remove_file, w.remove_label, w.remove_button),
                (w.mask, w.mask_label, w.mask_button)):
            shows = [box] if not hasattr(box, 'children') else list(box.children)
            c.eq(shows, [label, button] if 'DISPLAY' in os.environ else [label], 'shown')
        files, trail = [], []
        for k in range(c.int(2, 10)):
            kind = c.pick('directory', 'GIA', 'mask', 'remove', 'remove')
            picked = c.chance(.5)
            if kind == 'remove':
                new = [f'/d/{c.int(0, 9)}_{j}.nc' for j in range(c.int(0, 3))]
                trail.append((kind, picked, new))
                if picked:
                    opened[:] = [tuple(new)]
                    w.remove_button.click()
                    files = files + new
                else:
                    w.remove_label.value = ','.join(new)
                    files = new
            else:
                name = c.pick('a/b', '/tmp/x y', '~/data', './z', 'λ.nc')
                trail.append((kind, picked, name))
                label, button = ((w.directory_label, w.directory_button), (w.GIA_label,
                    w.GIA_button), (w.mask_label, w.mask_button))[
                    ('directory', 'GIA', 'mask').index(kind)]
                if picked:
                    opened[:] = [name]
                    button.click()
                else:
                    label.value = name
                got = dict(directory=w.base_directory, GIA=w.GIA_model,
                    mask=w.landmask)[kind]
                want = os.path.join(root, name.replace('~', root))
                c.ok(isinstance(got, pathlib.Path), 'path')
                c.eq(os.path.normpath(got), os.path.normpath(want), 'path', str(trail))
                c.ok(got.is_absolute(), 'absolute')
            c.eq(list(w.remove_files), files, 'files', str(trail))
            c.eq(w.remove_label.value, ','.join(files), 'label', str(trail))
            c.check.events[f'{kind} {"picked" if picked else "typed"}'] += 1
    finally:
        os.chdir(cwd)
        for k, v in (('HOME', home), ('DISPLAY', shown)):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        for k, v in keep.items():
            if v is None and k != 'filedialog':
                delattr(tools, k)
            else:
                setattr(tools, k, v)
    c.note(history=trail)


@check.section('corrections', quick=40, thorough=300)
def corrections(c):
    """units, formats and limits of the remaining controls"""
    w = tools.widgets(directory=c.scratch())
    units = ['cmwe', 'mmGH', 'mmCU', '\u03BCGal', 'mbar']
    given = [u for u in units if u == 'cmwe' or c.chance(.6)]
    kw = {} if c.chance(.4) else dict(units=given)
    given = kw.get('units', units)
    w.select_corrections(**kw)
    w.select_output()
    c.eq(list(w.units.options), given, 'units')
    c.eq((w.units.value, w.unit_index), ('cmwe', given.index('cmwe')+1), 'first-unit')
    for u in c.rng.permutation(given):
        w.units.value = str(u)
        c.eq(w.unit_index, given.index(u)+1, 'unit-index', u)
        if not kw and str(u).isascii():
            c.eq(g.units.bycode(w.unit_index), u, 'unit-code')
    for f in w.output_format.options:
        w.output_format.value = f
        c.eq(w.format, f, 'format')
    c.ok({'netCDF4', 'HDF5'} <= set(w.output_format.options), 'formats')
    for name, hi in (('gaussian', 1000.0), ('spacing', 360.0)):
        v = c.rng.uniform(-100, 2000)
        getattr(w, name).value = v
        c.eq(getattr(w, name).value, min(max(v, 0.0), hi), 'limits', name)
    # each object has its own lists and styles
    style = {'description_width': 'initial'}
    a, b = (tools.widgets(directory=c.scratch(), style=style) for _ in range(2))
    a.select_corrections()
    b.select_corrections()
    a.remove_label.value = 'x,y'
    c.eq((list(b.remove_files), b.remove_label.value), ([], ''), 'own-files')
    a.style['description_width'] = '1em'
    c.eq(style, {'description_width': 'initial'}, 'own-style')
    c.note(units=given)


@check.section('colormap', quick=60, thorough=500)
def colours(c):
    lo = c.int(-50, 40)
    steps = c.pick(10, 10, c.int(1, 30))
    hi = lo + c.int(1, 200)
    kw = {} if steps == 10 and c.chance(.7) else dict(steps=steps)
    m = tools.colormap(vmin=lo, vmax=hi, **kw)
    c.eq((m.range.min, m.range.max, tuple(m.range.value)), (lo, hi, (lo, hi)), 'range')
    c.eq((m.step.value, m.step.max), (max((hi-lo)//steps, 1), hi-lo), 'step')
    c.eq(m.name.value, 'viridis', 'name')
    names = list(m.name.options)
    c.eq(names, sorted(set(names)), 'sorted')
    c.ok(len(names) > 40 and all(n in matplotlib.colormaps for n in names), 'available')
    trail = []
    name, rev = 'viridis', False
    for k in range(c.int(2, 8)):
        act = c.pick('name', 'reverse', 'range', 'step')
        if act == 'name':
            name = str(c.pick(names))
            m.name.value = name
        elif act == 'reverse':
            rev = not rev
            m.reverse.value = rev
        elif act == 'range':
            a, b = sorted(c.rng.integers(lo, hi+1, 2).tolist())
            m.range.value = [a, b]
        else:
            m.step.value = c.int(0, max(1, hi-lo))
        trail.append(act)
        x = np.linspace(0, 1, 97)
        got = m.value
        c.near(got(x), matplotlib.colormaps[name + '_r'*rev](x), 'colors', tol=1e-12)
        got.set_bad('k', .123)
        c.ok(tuple(matplotlib.colormaps[name](np.nan)) != (0, 0, 0, .123), 'own-copy')
        a, b = m.range.value
        c.eq((m.norm.vmin, m.norm.vmax), (a, b), 'norm')
        s = m.step.value
        v = list(m.levels)
        c.eq(v, [a + s*j for j in range(len(v))], 'levels')
        c.ok(v[-1] >= b and (v[-1] < b + s), 'covered', str((a, b, s, v)))
        c.eq(list(m.label), [str(x) for x in v], 'labels')
        c.check.events[act] += 1
    c.note(lo=lo, hi=hi, steps=steps, history=trail)


if __name__ == '__main__':
    check.main()
