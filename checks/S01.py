"""S01: arithmetic and masking of spatial objects."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv.objs import spat, snap, same

check = Check('S01', 'each case draws a spatial object (single field or time '
    'series, with and without fill value, partially masked, dated or not) and '
    'compares an operation, or a random sequence of operations, with the same '
    'operation on the valid cells of plain arrays')


def agree(c, r, data, mask, fill, key):
    """valid cells have the expected value; invalid cells are masked and hold
    the fill value"""
    c.eq(np.shape(r.data), np.shape(data), key+'-shape')
    c.ok(np.array_equal(r.mask, mask), key+'-mask', nmask=int(np.sum(mask)),
        observed=int(np.sum(r.mask)))
    c.close(np.asarray(r.data)[~mask], data[~mask], key, rtol=1e-11, atol=1e-12)
    if fill is not None:
        bad = np.asarray(r.data)[mask]
        c.ok(np.all(np.isnan(bad)) if np.isnan(fill) else np.all(bad == fill),
            key+'-fill')
        c.ok(r.fill_value is not None and (r.fill_value == fill or
            (np.isnan(fill) and np.isnan(r.fill_value))), key+'-fill-value')


def variable(c, s):
    """an operand and the same operand broadcast over the field"""
    ny, nx = s.shape[:2]
    d = c.pick(0, 1, 2) if s.ndim == 2 else c.pick(0, 1, 2, 3)
    if d == 0:
        v = float(c.rng.normal())
        return d, v, v
    if d == 1:
        v = c.rng.standard_normal(s.shape[2] if s.ndim == 3 else c.int(1, 4))
        return d, (v if c.chance(.7) else list(v)), v[None, None, :]
    if d == 2:
        v = c.rng.standard_normal((ny, nx))
        return d, v, (v[:, :, None] if s.ndim == 3 else v)
    v = c.rng.standard_normal(s.shape)
    return d, v, v


@check.section('linear', quick=140, thorough=1400)
def linear(c):
    op = c.cycle('scale', 'offset')
    s = spat(c, dated=c.chance(.8))
    d, v, b = variable(c, s)
    c.note(op=op, shape=s.shape, var=d, fill=s.fill_value)
    keep = snap(s, v)
    r = getattr(s, op)(v)
    c.ok(r is not s and same(keep, snap(s, v)), 'operand-untouched')
    D, M = s.data, s.mask
    if d == 1 and s.ndim == 2:
        D, M = D[:, :, None], M[:, :, None]
    D = D*b if op == 'scale' else D+b
    agree(c, r, D, np.broadcast_to(M, D.shape), s.fill_value, f'{op}-{d}d')
    c.close(r.lon, s.lon, 'lon', rtol=0)
    c.close(r.lat, s.lat, 'lat', rtol=0)
    if s.time is not None:
        c.close(r.time, s.time, 'time', rtol=0)
        c.close(r.month, s.month, 'month', rtol=0)


@check.section('reduce', quick=120, thorough=1200)
def reduce(c):
    op = c.cycle('sum', 'max', 'min', 'mean')
    s = spat(c, nt=c.int(1, 6), dated=c.chance(.8))
    n = s.shape[2]
    c.note(op=op, shape=s.shape, fill=s.fill_value)
    kw, idx = {}, np.arange(n)
    if op == 'sum' and c.chance(.5):
        kw['power'] = c.pick(1, 2, 3)
    if op == 'mean' and c.chance(.5):
        idx = np.sort(c.rng.permutation(n)[:c.int(1, n)])
        kw['indices'] = idx if c.chance(.5) else list(idx)
    keep = snap(s)
    r = getattr(s, op)(**kw)
    c.ok(r is not s and same(keep, snap(s)), 'operand-untouched')
    D = s.data[:, :, idx]
    want = {'sum': lambda: (D**kw.get('power', 1)).sum(axis=2),
        'max': lambda: D.max(axis=2), 'min': lambda: D.min(axis=2),
        'mean': lambda: D.mean(axis=2)}[op]()
    agree(c, r, want, s.mask[:, :, idx].any(axis=2), s.fill_value, op)
    c.close(r.lon, s.lon, 'lon', rtol=0)
    c.close(r.lat, s.lat, 'lat', rtol=0)
    if op == 'mean' and s.time is not None:
        c.close(r.time, s.time[idx].mean(), 'mean-time', rtol=1e-12)


@check.section('anomaly', quick=40, thorough=400)
def anomaly(c):
    s = spat(c, nt=c.int(1, 6), dated=c.chance(.8))
    D, M = s.data.copy(), s.mask.copy()
    idx = np.arange(s.shape[2])
    kw = {}
    if c.chance(.5):
        idx = np.sort(c.rng.permutation(s.shape[2])[:c.int(1, s.shape[2])])
        kw['indices'] = idx
    c.note(shape=s.shape, fill=s.fill_value, idx=idx)
    s.mean(apply=True, **kw)
    lost = M | M[:, :, idx].any(axis=2)[:, :, None]
    # no anomaly where the month or the mean is invalid
    c.ok(np.all(s.mask[lost]), 'anomaly-mask', lost=int(lost.sum()))
    keep = ~lost
    want = D - D[:, :, idx].mean(axis=2)[:, :, None]
    c.close(s.data[keep], want[keep], 'anomaly', rtol=1e-11, atol=1e-11)
    c.ok(not s.mask[keep].any(), 'anomaly-valid')
    if s.fill_value is not None:
        bad = s.data[lost]
        c.ok(np.all((bad == s.fill_value) | np.isnan(bad)), 'anomaly-fill')


@check.section('power', quick=30, thorough=300)
def power(c):
    s = spat(c, dated=c.chance(.8))
    p = c.pick(2, 3, 1, 0.5)
    c.note(shape=s.shape, p=p, fill=s.fill_value)
    keep = snap(s)
    if p == 0.5:
        r = s.power(2).power(0.5)
        want = np.abs(s.data)
    else:
        r = s.power(p)
        want = s.data**p
    c.ok(same(keep, snap(s)), 'operand-untouched')
    agree(c, r, want, s.mask, s.fill_value, 'power')


@check.section('mask', quick=60, thorough=600)
def mask(c):
    """replacing fill values and masking"""
    s = spat(c, dated=c.chance(.8))
    D, M = s.data.copy(), s.mask.copy()
    fill = c.pick(-9999.0, 0.0, np.nan, 1e10)
    kw, N = {}, M
    k = c.int(0, 2)
    if k == 1:
        m = c.rng.random(s.shape) < .3
        kw, N = dict(mask=m), M | m
    elif k == 2:
        m = c.rng.random(s.shape[:2]) < .3
        kw = dict(mask=m)
        N = M | (m[:, :, None] if s.ndim == 3 else m)
    c.note(shape=s.shape, fill=s.fill_value, new=fill, kind=k)
    # values that turned invalid after the mask was set
    if s.fill_value is not None and c.chance(.4):
        i = tuple(c.int(0, n-1) for n in s.shape)
        s.data[i] = c.pick(s.fill_value, np.nan)
        N = N.copy()
        N[i] = True
    keep = snap(*kw.values())
    r = s.replace_invalid(fill, **kw)
    c.ok(same(keep, snap(*kw.values())), 'mask-untouched')
    c.ok(r is s, 'in-place')
    agree(c, s, D, N, fill, 'replace')
    a = s.to_masked_array()
    c.ok(np.array_equal(np.ma.getmaskarray(a), N), 'masked-array-mask')
    c.close(a.data[~N], D[~N], 'masked-array', rtol=0)
    # values equal to the fill value (and NaN) become invalid
    if not np.isnan(fill):
        i = tuple(c.int(0, n-1) for n in s.shape)
        s.data[i] = c.pick(fill, np.nan)
        N = N.copy()
        N[i] = True
        s.update_mask()
        agree(c, s, D, N, fill, 'update')
    # a mask set directly
    i = tuple(c.int(0, n-1) for n in s.shape)
    s.mask[i] = True
    s.replace_masked()
    N = N.copy()
    N[i] = True
    agree(c, s, D, N, fill, 'masked')


@check.section('sequences', quick=50, thorough=600)
def sequences(c):
    """random histories against plain arrays"""
    s = spat(c, nt=c.int(1, 5), fill=c.pick(-9999.0, np.nan, None))
    D, M, F = s.data.copy(), s.mask.copy(), s.fill_value
    hist = []
    for step in range(c.int(3, 8)):
        op = c.pick('scale', 'offset', 'power', 'flip', 'copy', 'index',
            'replace', 'subset', 'sum')
        if s.ndim == 2 and op in ('index', 'subset', 'sum'):
            op = 'copy'
        hist.append(op)
        if op in ('scale', 'offset'):
            d, v, b = variable(c, s)
            if d == 1 and s.ndim == 2:
                d, v, b = 0, .5, .5
            s = getattr(s, op)(v)
            D = D*b if op == 'scale' else D+b
        elif op == 'power':
            s, D = s.scale(.01).power(2), (D*.01)**2
        elif op == 'flip':
            a = c.pick(0, 1)
            s, D, M = s.flip(axis=a), np.flip(D, a), np.flip(M, a)
        elif op == 'copy':
            s = s.copy()
        elif op == 'index':
            i = c.int(0, s.shape[2]-1)
            s, D, M = s.index(i), D[:, :, i], M[:, :, i]
        elif op == 'subset':
            k = np.sort(c.rng.permutation(s.shape[2])[:c.int(1, s.shape[2])])
            s, D, M = s.subset(s.month[k]), D[:, :, k], M[:, :, k]
            if len(k) == 1:
                D, M = D[:, :, 0], M[:, :, 0]
        elif op == 'sum':
            s, D, M = s.sum(), D.sum(axis=2), M.any(axis=2)
        elif op == 'replace':
            F = c.pick(-9999.0, 1e10, np.nan)
            s = s.replace_invalid(F)
        agree(c, s, D, M, F, 'history')
    c.note(history=hist)
