"""P02: options that are left out have their documented values."""
import copy
import gzip
import importlib
import inspect
import io
import os
import zipfile

import h5py
import numpy as np

import gravity_toolkit as g
from rv.core import Check, Case
from rv.objs import snap
from rv.defaults import DEFAULTS
from rv.watch import Watch, Breach, equal, quiet, replayable
from checks.P01 import SOURCES, plain

check = Check('P02', 'cases of the other checks run while every public function of the '
    'package is wrapped; calls are made again with one option left out and with the '
    'documented value of that option, and the two results (or the contents of the two '
    'files) are compared', [
    'documented values are those of the docstrings of the pinned commit that name a '
    'value; options whose documentation and signature disagree there are not judged'])
WRITERS = ('to_ascii', 'to_netCDF4', 'to_HDF5', 'to_file')


def content(path):
    """what a file holds"""
    with open(path, 'rb') as f:
        body = f.read()
    if body[:2] == b'\x1f\x8b':
        body = gzip.decompress(body)
    elif body[:2] == b'PK':
        with zipfile.ZipFile(io.BytesIO(body)) as z:
            body = b''.join(z.read(n) for n in z.namelist())
    if body[:4] != b'\x89HDF':
        return body
    out = {}

    def visit(name, o):
        out[name] = ({k: repr(v) for k, v in o.attrs.items() if k not in
            ('REFERENCE_LIST', 'DIMENSION_LIST')}, np.array(o) if
            isinstance(o, h5py.Dataset) else None)
    with h5py.File(io.BytesIO(body), 'r') as f:
        out['/'] = {k: repr(v) for k, v in f.attrs.items() if not k.startswith('date')}
        f.visititems(visit)
    return out


class Defaults(Watch):
    def __init__(self, c, limit=60):
        super().__init__(c)
        self.c, self.left, self.compared = c, limit, {}

    def call(self, fn, name, cls, a, k):
        known = DEFAULTS.get(name)
        if known and self.left > 0 and replayable((a, k)):
            names = [x for x in known if self.compared.get((name, x), 0) < 2]
            for x in self.c.rng.permutation(len(names))[:4]:
                self.left -= 1
                self.compare(fn, name, cls, names[x], known[names[x]], a, k)
        return fn(*a, **k)

    def compare(self, fn, name, cls, option, value, a, k):
        given, args, rest = self.apart(fn, a, k)
        if any(x.lower() == option.lower() and x != option for x in rest):
            return
        rest.pop(option, None)
        value = np.nan if isinstance(value, str) and value == 'nan' else value
        writer = cls is not None and name.split('.')[-1] in WRITERS
        path = args[1] if writer and len(args) > 1 else rest.get('filename')
        if writer and not isinstance(path, (str, os.PathLike)):
            return
        seen = []
        for extra in ({}, {option: copy.deepcopy(value)}):
            a1, k1 = copy.deepcopy((args, {**rest, **extra}))
            with quiet():
                try:
                    r = fn(*a1, **k1)
                    got = content(os.path.expanduser(path)) if writer else \
                        snap(r, a1[:1] if cls is not None else ())
                    seen.append(('value', got))
                except Exception as e:
                    if writer:
                        return
                    seen.append(('error', type(e).__name__))
        self.compared[name, option] = self.compared.get((name, option), 0)+1
        self.seen += 1
        (x, p), (y, q) = seen
        self.calls[f'{name}({option}) {x}'] = self.calls.get(f'{name}({option}) {x}', 0)+1
        if x != y or not (p == q if x == 'error' else equal(p, q)):
            self.found('default', f'{name} without {option} differs from {option}={value!r}')

    @staticmethod
    def apart(fn, a, k):
        """positional arguments as keywords where they can be"""
        sig = inspect.signature(fn)
        par = list(sig.parameters.values())
        if any(p.kind == p.VAR_POSITIONAL for p in par):
            return None, list(a), dict(k)
        need = [p.name for p in par if p.default is p.empty and
            p.kind == p.POSITIONAL_OR_KEYWORD]
        n = len(need)
        args = list(a[:n])
        rest = dict(zip([p.name for p in par[n:]], a[n:]))
        rest.update(k)
        return None, args, rest


def register(source):
    n = len(importlib.import_module(f'checks.{source}').check.sections)

    @check.section(f'options-{source}', quick=6*n, thorough=60*n)
    def section(c):
        module = importlib.import_module(f'checks.{source}')
        secs = plain(module, c.quick)
        name, fn = secs[c.index % len(secs)][:2]
        module.check.seed, module.check.tier = c.check.seed, c.check.tier
        sub = Case(module.check, name, c.index//len(secs)+20000)
        c.note(source=source, section=name, case=sub.index)
        watch = Defaults(c)
        try:
            with watch:
                module.check.run_case(sub, fn)
        except Breach as e:
            c.ok(False, e.key, e.message)
        for k, v in watch.calls.items():
            c.check.events[k.split()[0]] += v
            c.check.observed[f'option:{k}'] += v
        c.nobs += watch.seen


for _s in SOURCES:
    register(_s)

@check.section('degrees', quick=5, thorough=150)
def degrees(c):
    """coefficients and Love numbers beyond the documented maximum degree of 60"""
    top = c.int(61, 66)
    rng = c.rng
    clm, slm = (np.tril(rng.standard_normal((top+1, top+1))) for _ in range(2))
    slm[:, 0] = 0
    lon, lat = np.arange(0, 360, 30.0), np.arange(75, -90, -30.0)
    love = tuple(rng.uniform(-.3, .3, top+1) for _ in range(3))
    grid = rng.standard_normal((len(lon), len(lat)))
    glon, glat = np.arange(0, 360, 3.0), np.arange(90, -91, -3.0)
    big = rng.standard_normal((len(glon), len(glat)))
    hw = rng.uniform(200, 800)
    value = rng.standard_normal()
    x, y = rng.uniform(0, 360), rng.uniform(-89, 89)
    low = c.int(0, 4)
    calls = [
        ('harmonic_summation', (clm, slm, lon, lat), dict(LMIN=low)),
        ('harmonic_transform', (clm, slm, np.linspace(0, 360, 145), lat), {}),
        ('harmonic_gradients', (clm, slm, lon, lat), dict(LMIN=low)),
        ('stokes_summation', (clm, slm, lon, lat), dict(UNITS=1, LOVE=love)),
        ('gen_stokes', (grid, lon, lat), dict(UNITS=1, LOVE=love)),
        ('gen_stokes', (grid, lon, lat), dict(LOVE=love)),
        ('gen_harmonics', (big, glon, glat), {}),
        ('gen_harmonics', (big, glon, glat), dict(METHOD='fourier')),
        ('gen_point_load', (grid.ravel()[:3], lon[:3], lat[:3]), dict(LOVE=love)),
        ('gen_disc_load', (value, x, y, 1e4), dict(LOVE=love)),
        ('gen_spherical_cap', (value, x, y), dict(LOVE=love, RAD_CAP=2.0)),
        ('gen_averaging_kernel', (clm, slm, .1*clm, .1*slm, .3, hw),
            dict(LOVE=tuple(v[:61] for v in love))),
        ('destripe_harmonics', (clm, slm), {}),
        ('load_love_numbers', (c.int(5, 40),), dict(REFERENCE='CF')),
    ]
    n = 0
    for name, a, k in calls:
        fn = getattr(g, name, None) or getattr(g.mascons, name)
        for option, value0 in (('LMAX', 60), *DEFAULTS[name].items()):
            if option in k or option == 'LMAX' and name == 'stokes_summation' or \
                    option == 'LMAX' and option not in \
                    inspect.signature(fn).parameters:
                continue
            out = []
            for extra in ({}, {option: value0}):
                try:
                    with quiet(), np.errstate(all='ignore'):
                        out.append(snap(fn(*copy.deepcopy(a), **copy.deepcopy(k),
                            **extra)))
                except Exception as e:
                    out.append(repr(e)[:200])
            n += not isinstance(out[0], str)
            if name == 'load_love_numbers' and option == 'LMAX' or option == 'LMAX' and \
                    isinstance(out[0], str):
                continue
            c.ok(type(out[0]) is type(out[1]) and (isinstance(out[0], str) or
                equal(*out)), 'default', f'{name} without {option} differs from '
                f'{option}={value0!r}')
            c.check.events[f'{name}({option})'] += 1
            c.check.observed[f'option:{name}({option}) '+
                ('error' if isinstance(out[0], str) else 'value')] += 1
    c.note(top=top, lmin=low, values=n)


if __name__ == '__main__':
    check.main()
