"""R05: reading glacial isostatic adjustment models."""
import os
import pathlib
import stat
import numpy as np
import gravity_toolkit as g
from rv.objs import othercase
from rv.core import Check, Skip
from rv.objs import tri

check = Check('R05', 'each case writes a GIA model file in the layout of one '
    'of the supported groups with generated coefficients, reads it (as '
    'dictionary or object, truncated or not, reformatted to another format '
    'and read back) and compares degrees, coefficients, titles and references '
    'with what was written')

DEFAULT = {'IJ05-R2': 120, 'ICE6G': 60, 'W12a': 120, 'SM09': 120, 'Wu10': 60,
    'Caron': 89, 'ICE6G-D': 256, 'AW13-ICE6G': 100, 'AW13-IJ05': 256}
CITE = {'IJ05-R2': 'Ivins_et_al._(2013)', 'ICE6G': 'Peltier_et_al._(2015)',
    'W12a': 'Whitehouse_et_al._(2012)', 'SM09': 'Simpson_et_al._(2009)',
    'Wu10': 'Wu_et_al._(2010)', 'Caron': 'Caron_et_al._(2018)',
    'ICE6G-D': 'Peltier_et_al._(2018)', 'AW13-ICE6G': 'A_et_al._(2013)',
    'AW13-IJ05': 'A_et_al._(2013)'}


def number(c, style):
    def fmt(x):
        s = f'{x: .12E}'
        if style == 'D':
            s = s.replace('E', 'D')
        elif style == 'e':
            s = s.replace('E', 'e')
        elif style == 'e5':
            return f'{x:17.9e}'
        return s
    return fmt


def rounded(x, digits):
    return np.vectorize(lambda v: float(f'{v:.{digits}E}'))(x)


def names(c, GIA):
    """file name and title of a model run"""
    if GIA == 'IJ05-R2':
        p = c.pick('115_.2_1.5', '65_.2_1.5_PREM', 'test')
        return f'Stokes.R2_{p}_L120', f'IJ05_R2_{p}'
    if GIA == 'ICE6G':
        p = c.pick('VM5', 'VM5_b', 'x2')
        return f'Stokes_G_Rot_60_I6_A_{p}', f'ICE6G_{p}'
    if GIA == 'W12a':
        k, n = c.pick([('B', 'Best'), ('L', 'Lower'), ('U', 'Upper')])
        return f'grate_{k}.clm', f'W12a_{n}'
    if GIA == 'SM09':
        a, b, d = c.int(46, 120), c.int(1, 9), c.int(1, 50)
        return f'grate_{a}p{b}{d}.clm', f'SM09_Huy2_{a}_.{b}_{d}'
    if GIA == 'Wu10':
        return 'Wu_2010.txt', 'Wu_2010'
    if GIA == 'Caron':
        return 'GIA_maps_Caron.txt', 'Caron_expt'
    if GIA == 'ICE6G-D':
        return c.pick([('ICE-6G_High_Res_Stokes_trend.txt', 'ICE6G-D_High_Res'),
            ('Stokes_trend_High_Res.txt', 'ICE6G-D_High_Res'),
            ('ICE-6G_512_Stokes_trend.txt', 'ICE6G-D_512')])
    if GIA == 'AW13-ICE6G':
        p = c.pick('VM5', 'thin65', 'um1lm10')
        return f'stokes.ice6g{c.pick(".", "_")}{p}{c.pick("", ".txt")}', \
            f'AW13_ice6g_{p}'
    p = c.pick('100_.2_2', 'um1', '65_.2_1.5')
    return f'stokes.R2_{p}{c.pick("", "_ANT")}', f'AW13_IJ05_R2_{p}'


def model(c, GIA, hi=None):
    """write a model of maximum degree F; file, title, coefficients"""
    F = hi or (c.int(3, 14) if c.quick else c.int(3, 40))
    t = tri(F, F)
    digits = 12
    # exponents of both signs and of no size (scaled models are near one)
    hi_ = c.pick(-12, -12, 0, 3)
    def size():
        return 10.0**c.rng.integers(min(hi_-3, -12), hi_+1, (F+1, F+1))
    C = rounded(c.rng.standard_normal((F+1, F+1))*size(), digits)*t
    S = rounded(c.rng.standard_normal((F+1, F+1))*size(), digits)*t
    S[:, 0] = 0
    fmt = number(c, c.pick('E', 'D') if GIA not in ('ICE6G', 'Wu10', 'Caron')
        else c.pick('E', 'e'))
    lm = [(l, m) for l in range(F+1) for m in range(l+1)]
    name, title = names(c, GIA)
    out, scale = [], 1.0
    if GIA in ('IJ05-R2', 'W12a', 'SM09', 'AW13-ICE6G', 'AW13-IJ05'):
        scale = 1e-11 if GIA == 'IJ05-R2' else 1.0
        order = [lm[i] for i in c.rng.permutation(len(lm))] if c.chance(.3) \
            else lm
        drop = c.int(0, 3) if c.chance(.5) else 0
        if drop:
            # models often have no lowest coefficients
            for l, m in order[:drop]:
                C[l, m] = S[l, m] = 0
            order = order[drop:]
        out = [f'{l:5d}{m:5d} {fmt(C[l, m])} {fmt(S[l, m])}' for l, m in order]
        if c.chance(.4):
            out.append('')
        if c.chance(.3):
            out.insert(0, 'degree order cosine sine')
    elif GIA == 'ICE6G':
        scale = 1e-11
        for l in range(F+1):
            for m in range(0, l+1, 2):
                w = [f'{l:4d}'] if m == 0 else []
                for k in (m, m+1):
                    if k <= l:
                        w += [fmt(C[l, k]), fmt(S[l, k])]
                out.append(' '.join(w))
    elif GIA == 'Wu10':
        C[0] = S[0] = 0
        out = ['Wu et al. (2010) geoid rates in mm/yr']
        C, S = C*1e12, S*1e12
        C, S = rounded(C, digits)*t, rounded(S, digits)*t
        for l in range(1, F+1):
            for m in range(l+1):
                out.append(fmt(C[l, m]))
                if m:
                    out.append(fmt(S[l, m]))
        scale = 1/6.371e9
    elif GIA == 'Caron':
        out = ['GIA statistics', '120 models', 'l m C', '----']
        rows = [(l, m, C[l, m]) for l, m in lm]
        rows += [(l, -m, S[l, m]) for l, m in lm if m > 0]
        if c.chance(.5):
            rows = [rows[i] for i in c.rng.permutation(len(rows))]
        out += [f'{l:4d} {m:4d} {fmt(v)}' for l, m, v in rows]
    elif GIA == 'ICE6G-D':
        out = ['ICE-6G_D (VM5a) 2018', 'Stokes coefficients 1 of 2',
            '  4.5  units 1/yr']*c.int(1, 2)
        sec1 = [f'{l:4d}{m:4d} {fmt(C[l, m])} {fmt(S[l, m])}'
            for l, m in lm if l <= 2]
        other = [f'{l:4d}{m:4d} {fmt(7.)} {fmt(-7.)}' for l, m in lm if l <= 2]
        rest = [f'{l:4d}{m:4d} {fmt(C[l, m])} {fmt(S[l, m])}'
            for l, m in lm if l > 2]
        if c.chance(.3):
            rest.append('')
        if c.chance(.5):
            out += ['Absolute Sea-level Values for degrees 0 to 2'] + other
            out += ['GRACE Approximation for degrees 0 to 2'] + sec1
        else:
            out += ['GRACE Approximation for degrees 0 to 2'] + sec1
            out += ['Absolute Sea-level Values for degrees 0 to 2'] + other
        out += ['GRACE Approximation/Absolute Sea-level Values for degrees > 2']
        out += rest
    path = os.path.join(c.scratch(), name)
    with open(path, 'w') as f:
        f.write('\n'.join(out)+'\n')
    return path, title, C*scale, S*scale, F


def fit(x, L, M):
    """truncate or pad with zeros"""
    out = np.zeros((L+1, M+1))
    a, b = min(L+1, x.shape[0]), min(M+1, x.shape[1])
    out[:a, :b] = x[:a, :b]
    return out


def compare(c, r, C, S, L, M, key=''):
    M = L if M is None else M
    c.close(r['clm'], fit(C, L, M), key+'clm', rtol=1e-14)
    c.close(r['slm'], fit(S, L, M), key+'slm', rtol=1e-14)
    c.ok(np.array_equal(r['l'], np.arange(L+1)), key+'degrees')
    c.ok(np.array_equal(r['m'], np.arange(M+1)), key+'orders')


@check.section('read', quick=135, thorough=2000)
def read(c):
    GIA = c.cycle(sorted(DEFAULT))
    path, title, C, S, F = model(c, GIA)
    # Wu and ICE6G files are read in sequence: not beyond what they have
    hi = F if GIA in ('Wu10', 'ICE6G') else F+4
    L = c.int(1, hi)
    if GIA not in ('Wu10', 'ICE6G') and c.chance(.1):
        L = None
    M = c.pick(None, None, c.int(0, L or F))
    c.note(GIA=GIA, file=F, lmax=L, mmax=M)
    src = c.pick(path, pathlib.Path(path))
    kw = {} if L is None else dict(LMAX=L)
    L = DEFAULT[GIA] if L is None else L
    if M is not None:
        kw['MMAX'] = M
    before = open(path).read()
    r = g.read_GIA_model(src, GIA=GIA, **kw)
    compare(c, r, C, S, L, M)
    c.eq(r['title'], title, 'title')
    c.eq(r['citation'], CITE[GIA], 'citation')
    c.ok(CITE[GIA].split('(')[1][:4] in r['reference'], 'reference')
    c.ok(str(r['url']).startswith('https://doi.org/'), 'url')
    c.eq(sorted(os.listdir(os.path.dirname(path))), [os.path.basename(path)],
        'no-output')
    c.eq(open(path).read(), before, 'input-kept')


@check.section('object', quick=90, thorough=900)
def object_(c):
    """the same model as a harmonics object"""
    GIA = c.cycle(sorted(DEFAULT))
    path, title, C, S, F = model(c, GIA)
    L = c.int(1, F)
    M = c.pick(None, c.int(0, L))
    c.note(GIA=GIA, file=F, lmax=L, mmax=M)
    kw = {} if M is None else {c.pick('mmax', 'MMAX'): M}
    src = path
    if c.chance(.3):
        # names are matched without regard to case
        src = othercase(c, path, rename=False)
    r = g.gia(lmax=L).from_GIA(src, GIA=GIA, **kw)
    compare(c, vars(r), C, S, L, M)
    c.eq((int(r.lmax), int(r.mmax)), (L, L if M is None else M), 'limits')
    c.eq((r.title, r.citation), (title, CITE[GIA]), 'names')
    c.eq((r.ndim, r.shape), (2, (L+1, (L if M is None else M)+1)), 'shape')
    # it is a harmonics object: a drift of n years is n times the rate
    n = float(c.rng.uniform(-20, 20))
    d = r.scale(n)
    c.close(d.clm, n*r.clm, 'scale-clm', rtol=1e-14)
    t = c.rng.uniform(2002, 2025, 3)
    d = r.drift(t, epoch=2010.0)
    c.close(d.clm, r.clm[:, :, None]*(t-2010), 'drift', rtol=1e-12)
    c.close(d.slm, r.slm[:, :, None]*(t-2010), 'drift', rtol=1e-12)


@check.section('reformat', quick=90, thorough=900)
def reformat(c):
    """written to a standard format and read back"""
    GIA = c.cycle(sorted(DEFAULT))
    form = c.pick('ascii', 'netCDF4', 'HDF5')
    path, title, C, S, F = model(c, GIA)
    L = c.int(2, F)
    M = c.pick(None, c.int(0, L))
    mode = c.pick(0o775, 0o640, 0o600)
    c.note(GIA=GIA, form=form, lmax=L, mmax=M, mode=mode)
    kw = {} if M is None else dict(MMAX=M)
    r = g.read_GIA_model(path, GIA=GIA, LMAX=L, DATAFORM=form, MODE=mode, **kw)
    compare(c, r, C, S, L, M)
    ext = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}[form]
    out = os.path.join(os.path.dirname(path), f'stokes_{title}_L{L}.{ext}')
    c.ok(os.path.exists(out), 'file')
    c.eq(stat.S_IMODE(os.stat(out).st_mode), mode, 'mode')
    K = c.int(1, L+3)
    J = c.pick(None, c.int(0, K))
    if c.chance(.5):
        s = g.read_GIA_model(out, GIA=form, LMAX=K,
            **({} if J is None else dict(MMAX=J)))
    else:
        o = g.gia(lmax=K).from_GIA(out, GIA=form, mmax=J)
        s = dict(vars(o))
    J = K if J is None else J
    tol = dict(rtol=1e-12 if form == 'ascii' else 1e-14)
    c.close(s['clm'], fit(fit(C, L, L), K, J), 'back-clm', **tol)
    c.close(s['slm'], fit(fit(S, L, L), K, J), 'back-slm', **tol)
    c.ok(np.array_equal(s['l'], np.arange(K+1)), 'back-degrees')
    c.ok(np.array_equal(s['m'], np.arange(J+1)), 'back-orders')
    if form == 'ascii':
        c.eq(s['title'], f'stokes_{title}_L{L}', 'back-title')
    else:
        c.eq(s['title'], title, 'back-title')
        c.eq(s['reference'], r['reference'], 'back-reference')


@check.section('sequence', quick=20, thorough=200)
def sequence(c):
    """reading is a pure function of the file: other reads in between, or a
    caller that changes what it was given, do not matter"""
    GIA = c.cycle(sorted(DEFAULT))
    path, title, C, S, F = model(c, GIA)
    c.note(GIA=GIA, file=F)
    a = g.read_GIA_model(path, GIA=GIA, LMAX=F)
    a['clm'] += 1
    a['slm'][:] = 3
    a['title'] = 'changed'
    with_other = g.read_GIA_model(path, GIA=None, LMAX=4)
    c.ok(not np.any(with_other['clm']) and with_other['title'] is None, 'none')
    b = g.read_GIA_model(path, GIA=GIA, LMAX=F)
    compare(c, b, C, S, F, None)
    c.eq(b['title'], title, 'title')


@check.section('missing', quick=12, thorough=12)
def missing(c):
    GIA = c.cycle(sorted(DEFAULT)+['ascii', 'netCDF4', 'HDF5'])
    c.note(GIA=GIA)
    p = os.path.join(c.scratch(), names(c, GIA)[0] if GIA in DEFAULT else 'x')
    c.raises(FileNotFoundError, 'read', g.read_GIA_model, p, GIA=GIA)
    c.raises(FileNotFoundError, 'object', g.gia(lmax=4).from_GIA, p, GIA=GIA)
