"""S02: structure of spatial objects."""
import pathlib
import numpy as np
import gravity_toolkit as g
from rv.core import Check, Skip
from rv.objs import spat, snap, same

check = Check('S02', 'each case draws a spatial object and a structural '
    'operation (copy, zeros, expand, squeeze, index, subset, merge, flip, '
    'transpose, extend, iterate, dictionary) and compares with the same '
    'selection on plain arrays',
    ['grids have at least two latitudes and two longitudes'])


def agree(c, r, s, sel, key, date=True):
    """r holds the slice sel of the last axis of s"""
    D, M = (s.data[..., sel], s.mask[..., sel]) if sel is not None else \
        (s.data, s.mask)
    c.close(np.squeeze(r.data), np.squeeze(D), key, rtol=0)
    c.ok(np.array_equal(np.squeeze(r.mask), np.squeeze(M)), key+'-mask')
    c.close(r.lon, s.lon, key+'-lon', rtol=0)
    c.close(r.lat, s.lat, key+'-lat', rtol=0)
    fv = (r.fill_value, s.fill_value)
    c.ok(fv[0] is fv[1] or fv[0] == fv[1] or np.isnan(fv[0]), key+'-fill')
    if hasattr(s, 'error'):
        E = s.error[..., sel] if sel is not None else s.error
        c.close(np.squeeze(r.error), np.squeeze(E), key+'-error', rtol=0)
    if date and s.time is not None:
        t, m = (s.time[sel], s.month[sel]) if sel is not None else \
            (s.time, s.month)
        c.close(np.squeeze(r.time), np.squeeze(t), key+'-time', rtol=0)
        c.close(np.squeeze(r.month), np.squeeze(m), key+'-month', rtol=0)


def make(c, **kw):
    s = spat(c, **kw)
    if c.chance(.3):
        s.error = np.abs(c.rng.standard_normal(s.shape))
        if s.fill_value is not None:
            s.error[s.mask] = s.fill_value
    return s


@check.section('copy', quick=40, thorough=400)
def copy(c):
    s = make(c, dated=c.chance(.8))
    s.attributes['ROOT'] = {'title': 'a', 'nested': {'x': [1, 2]}}
    c.note(shape=s.shape, fill=s.fill_value)
    keep = snap(s)
    r = s.copy()
    agree(c, r, s, None, 'copy')
    c.eq(r.attributes, s.attributes, 'attributes')
    r.data[:] = 7
    r.mask[:] = True
    r.lon[:] = 3
    r.lat[:] = 4
    if s.time is not None and np.ndim(s.time):
        r.time[:] = 0
        r.month[:] = 0
    if hasattr(s, 'error'):
        r.error[:] = 9
    r.attributes['ROOT']['title'] = 'b'
    r.attributes['ROOT']['nested']['x'].append(3)
    r.attributes['new'] = {}
    c.ok(same(keep, snap(s)), 'independent')
    z = s.zeros_like()
    c.ok(same(keep, snap(s)), 'zeros-independent')
    c.eq(z.shape, s.shape, 'zeros-shape')
    c.ok(not np.any(z.data) and not np.any(z.mask), 'zeros')
    c.close(z.lon, s.lon, 'zeros-lon', rtol=0)
    c.close(z.lat, s.lat, 'zeros-lat', rtol=0)
    z.lon[:] = 1
    z.lat[:] = 1
    c.ok(same(keep, snap(s)), 'zeros-aliased')


@check.section('properties', quick=30, thorough=200)
def properties(c):
    s = make(c, dated=c.chance(.8))
    c.note(shape=s.shape)
    c.eq((s.shape, s.ndim, s.dtype), (s.data.shape, s.data.ndim, s.data.dtype),
        'shape')
    c.close(s.spacing, (abs(s.lon[1]-s.lon[0]), abs(s.lat[1]-s.lat[0])),
        'spacing', rtol=1e-14)
    c.close(s.extent, (s.lon.min(), s.lon.max(), s.lat.min(), s.lat.max()),
        'extent', rtol=0)
    text = str(s)
    if s.month is not None:
        c.ok(f'start_month: {np.min(s.month)}\n' in text
            and f'end_month: {np.max(s.month)}' in text, 'months-shown')
        c.eq(len(s), np.size(s.month), 'length')
    else:
        c.eq(len(s), 0, 'length')


@check.section('dims', quick=40, thorough=400)
def dims(c):
    s = make(c)
    c.note(shape=s.shape)
    x = s.copy()
    r = x.expand_dims()
    c.ok(r is x, 'in-place')
    c.eq((x.ndim, np.ndim(x.mask), np.ndim(x.time), np.ndim(x.month)),
        (3, 3, 1, 1), 'expanded')
    agree(c, x, s, None, 'expand')
    y = x.copy().expand_dims()
    c.eq(y.shape, x.shape, 'expand-twice')
    x.squeeze()
    agree(c, x, s, None, 'squeeze')
    c.eq(x.ndim, 2 if s.ndim == 2 or s.shape[2] == 1 else 3, 'squeezed')


@check.section('select', quick=80, thorough=800)
def select(c):
    s = make(c, nt=c.int(1, 6))
    n = s.shape[2]
    if c.chance(.4):
        s.filename = [f'/x/file{i}' for i in range(n)]
    if c.chance(.3):
        # months in another order than that of time
        s.month = s.month[c.rng.permutation(n)]
    keep = snap(s)
    i = c.int(0, n-1)
    j = i if c.chance(.7) else i-n
    c.note(shape=s.shape, index=j)
    r = s.index(j)
    agree(c, r, s, i, 'index')
    if s.filename:
        c.eq(r.filename, s.filename[i], 'index-filename')
    k = np.sort(c.rng.permutation(n)[:c.int(1, n)])
    want = s.month[k]
    ask = want[c.rng.permutation(len(k))] if c.chance(.3) else want
    ask = int(ask[0]) if len(k) == 1 and c.chance(.5) else \
        (list(ask) if c.chance(.3) else ask)
    r = s.subset(ask)
    agree(c, r, s, k, 'subset')
    if s.filename:
        c.eq(list(np.atleast_1d(r.filename)), [s.filename[x] for x in k],
            'subset-filename')
    c.eq(r.ndim, 2 if len(k) == 1 else 3, 'subset-dims')
    c.ok(same(keep, snap(s)), 'operand-untouched')
    r.data[...] = 5
    r.lon[:] = 0
    c.ok(same(keep, snap(s)), 'independent')
    missing = int(s.month.max()) + c.int(1, 5)
    c.raises(IOError, 'missing-month', s.subset,
        np.append(s.month[k], missing))


@check.section('repeated-months', quick=15, thorough=100)
def repeated(c):
    s = make(c, nt=c.int(3, 6))
    s.month[1] = s.month[0]
    c.note(shape=s.shape)
    r = s.subset(s.month[0])
    agree(c, r, s, np.array([0, 1]), 'both')
    r = s.subset([int(s.month[2])]*2)
    agree(c, r, s, 2, 'asked-twice')


@check.section('merge', quick=60, thorough=600)
def merge(c):
    n = c.int(1, 6)
    first = make(c, nt=n)
    c.note(shape=first.shape)
    parts = [first.index(i) for i in range(n)]
    order = c.rng.permutation(n)
    arrays = c.chance(.3)
    for p in parts:
        if arrays:
            p.time, p.month = np.atleast_1d(p.time), np.atleast_1d(p.month)
    parts = [parts[i] for i in order]
    keep = snap(*parts)
    sort = c.chance(.7)
    date = c.chance(.8)
    r = g.spatial().from_list(parts, sort=sort, date=date)
    c.ok(same(keep, snap(*parts)), 'operands-untouched')
    sel = np.arange(n) if sort and date else order
    agree(c, r, first, sel, 'merged', date=date)
    c.eq(r.shape, first.shape, 'merged-shape')
    r.data[...] = 1
    r.lon[:] = 0
    c.ok(same(keep, snap(*parts)), 'independent')


@check.section('flip', quick=60, thorough=600)
def flip(c):
    s = make(c, dated=c.chance(.8))
    axis = c.cycle(0, 1, 2)
    if axis == 2 and (s.ndim == 2 or s.time is None):
        raise Skip
    c.note(shape=s.shape, axis=axis)
    keep = snap(s)
    r = s.flip(axis=axis)
    c.close(r.data, np.flip(s.data, axis), 'flip', rtol=0)
    c.ok(np.array_equal(r.mask, np.flip(s.mask, axis)), 'flip-mask')
    if hasattr(s, 'error'):
        c.close(r.error, np.flip(s.error, axis), 'flip-error', rtol=0)
    for i, n in enumerate(('lat', 'lon')):
        x = getattr(s, n)
        c.close(getattr(r, n), x[::-1] if i == axis else x, n, rtol=0)
    if s.time is not None:
        for n in ('time', 'month'):
            x = getattr(s, n)
            c.close(getattr(r, n), x[::-1] if axis == 2 else x, n, rtol=0)
    c.ok(same(keep, snap(s)), 'operand-untouched')
    agree(c, r.flip(axis=axis), s, None, 'twice')
    axes = None if s.ndim == 2 or c.chance(.3) else \
        tuple(int(v) for v in c.rng.permutation(3))
    t = s.transpose(axes=axes)
    c.close(t.data, np.transpose(s.data, axes), 'transpose', rtol=0)
    c.ok(np.array_equal(t.mask, np.transpose(s.mask, axes)), 'transpose-mask')
    c.ok(same(keep, snap(s)), 'operand-untouched')


@check.section('extend', quick=40, thorough=400)
def extend(c):
    """wrapping a global grid in longitude"""
    s = make(c, dated=c.chance(.8))
    c.note(shape=s.shape)
    keep = snap(s)
    r = s.extend_matrix()
    d = s.lon[1]-s.lon[0]
    c.close(r.lon, np.r_[s.lon[0]-d, s.lon, s.lon[-1]+d], 'lon', rtol=1e-12)
    c.close(r.lat, s.lat, 'lat', rtol=0)
    ix = np.r_[-1, np.arange(len(s.lon)), 0]
    c.close(r.data, s.data[:, ix], 'data', rtol=0)
    c.ok(np.array_equal(r.mask, s.mask[:, ix]), 'mask')
    if hasattr(s, 'error'):
        c.close(r.error, s.error[:, ix], 'error', rtol=0)
    c.ok(same(keep, snap(s)), 'operand-untouched')


@check.section('iterate', quick=40, thorough=400)
def iterate(c):
    s = make(c, nt=c.int(1, 6), dated=c.chance(.7))
    c.note(shape=s.shape)
    if c.chance(.3):
        s.filename = [f'/x/file{i}' for i in range(s.shape[2])]
    for rep in range(2):
        k = -1
        for k, x in enumerate(s):
            agree(c, x, s, k, 'item')
            c.eq(x.ndim, 2, 'item-dims')
            if s.filename:
                c.eq(x.filename, s.filename[k], 'item-filename')
        c.eq(k+1, s.shape[2], 'count')
    if s.time is None:
        return
    r = g.spatial().from_list([x for x in s])
    agree(c, r, s, np.arange(s.shape[2]), 'merged-back')


@check.section('dictionary', quick=30, thorough=300)
def dictionary(c):
    s = make(c, dated=c.chance(.7), masked=False)
    c.note(shape=s.shape)
    d = dict(lon=s.lon, lat=s.lat, data=s.data)
    if s.time is not None:
        d.update(time=s.time, month=s.month)
    if hasattr(s, 'error'):
        d['error'] = s.error
    if c.chance(.5):
        d['attributes'] = {'title': 'x'}
    keep = snap(d)
    r = g.spatial(fill_value=s.fill_value).from_dict(d)
    agree(c, r, s, None, 'dict')
    c.eq(r.attributes['ROOT'], d.get('attributes'), 'attributes')
    r.data[...] = 0
    r.lon[:] = 0
    c.ok(same(keep, snap(d)), 'independent')


@check.section('filenames', quick=30, thorough=300)
def filenames(c):
    """the name of the file of a month stays with the month"""
    n = c.int(1, 6)
    months = 4 + np.cumsum(c.rng.integers(1, 4, n))
    order = c.rng.permutation(n)
    wrap = c.pick(str, pathlib.Path)
    objs = []
    for i in order:
        o = spat(c, nt=None, nlat=2, nlon=3)
        o.month = np.int64(months[i])
        o.time = np.float64(2002+(months[i]-.5)/12)
        o.filename = wrap(f'file{months[i]:03d}.txt')
        objs.append(o)
    sort = c.chance(.7)
    c.note(n=n, sort=sort)
    r = g.spatial().from_list(objs, sort=sort)
    seen = months if sort else months[order]
    want = [f'file{k:03d}.txt' for k in seen]
    c.eq([str(f) for f in r.filename], want, 'merge')
    cp = r.copy()
    c.eq([str(f) for f in cp.filename], want, 'copy')
    cp.filename[0] = 'other'
    c.eq(str(r.filename[0]), want[0], 'copy-independent')
    i = c.int(-n, n-1)
    c.eq(str(r.index(i).filename), want[i], 'index')
    for k, o in enumerate(r):
        c.eq(str(o.filename), want[k], 'iterate')
    pick = np.sort(c.rng.permutation(n)[:c.int(1, n)])
    sub = r.subset(seen[pick])
    c.eq([str(f) for f in np.atleast_1d(sub.filename)],
        [want[k] for k in pick], 'subset')
