"""H02: structure of harmonics objects."""
import pathlib
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv.objs import harm, snap, same, tri

check = Check('H02', 'each case draws harmonics objects and a structural '
    'operation (copy, flatten, expand, index, subset, merge, truncate, '
    'squeeze, iterate, dictionary) or a random sequence of them and compares '
    'with the same selection on plain arrays')


def agree(c, h, clm, slm, time, month, key):
    c.close(h.clm, clm, key+'-clm', rtol=0)
    c.close(h.slm, slm, key+'-slm', rtol=0)
    if time is not None:
        c.close(np.squeeze(h.time), np.squeeze(time), key+'-time', rtol=0)
        c.close(np.squeeze(h.month), np.squeeze(month), key+'-month', rtol=0)
    L, M = clm.shape[0]-1, clm.shape[1]-1
    c.eq((int(h.lmax), int(h.mmax)), (L, M), key+'-limits')
    c.ok(np.array_equal(h.l, np.arange(L+1)) and np.array_equal(h.m,
        np.arange(M+1)), key+'-degrees')


@check.section('copy', quick=30, thorough=300)
def copy(c):
    a = harm(c)
    if c.chance(.5):
        a.attributes['ROOT'] = {'title': 'a', 'nested': {'x': [1, 2]}}
    if c.chance(.5):
        a.filename = ['one.nc', 'two.nc']
    b = a.copy()
    c.note(a=a.clm.shape)
    c.eq((b.attributes, b.filename), (a.attributes, a.filename), 'attributes')
    agree(c, b, a.clm, a.slm, a.time, a.month, 'copy')
    keep = snap(a)
    b.clm *= 2
    b.slm += 1
    if np.ndim(b.time):
        b.time += 1
        b.month += 1
    b.truncate(0)
    if 'ROOT' in a.attributes:
        b.attributes['ROOT']['title'] = 'b'
        b.attributes['ROOT']['nested']['x'].append(3)
    b.attributes['new'] = {}
    if a.filename is not None:
        b.filename.append('three.nc')
    c.ok(same(keep, snap(a)), 'independent')
    z = a.zeros_like()
    c.ok(z.clm.shape == a.clm.shape and not z.clm.any() and not z.slm.any(),
        'zeros_like')
    c.ok(same(keep, snap(a)), 'zeros_like-pure')


@check.section('zeros', quick=20, thorough=200)
def zeros(c):
    L = c.int(0, 12)
    M = None if c.chance(.5) else c.int(0, L)
    nt = None if c.chance(.5) else c.int(1, 5)
    c.note(L=L, M=M, nt=nt)
    h = g.harmonics().zeros(lmax=L, mmax=M, nt=nt)
    m = L if M is None else M
    s = (L+1, m+1) if nt is None else (L+1, m+1, nt)
    c.eq((h.clm.shape, h.slm.shape), (s, s), 'shape')
    c.ok(not h.clm.any() and not h.slm.any(), 'zero')
    c.ok(np.array_equal(h.m, np.arange(m+1)), 'orders')


@check.section('flatten', quick=60, thorough=600)
def flatten(c):
    a = harm(c, L=c.index if c.index < 4 else None)
    dated = a.time is not None and c.chance(.7)
    keep = snap(a)
    c.note(a=a.clm.shape, date=dated)
    f = a.flatten(date=dated)
    c.ok(same(keep, snap(a)), 'pure')
    L, M = a.lmax, a.mmax
    n = (M+1)*(L+1) - M*(M+1)//2
    c.eq((len(f.l), len(f.m), f.clm.shape[0]), (n, n, n), 'count')
    c.eq(len(set(zip(f.l.tolist(), f.m.tolist()))), n, 'unique')
    c.ok(np.all(f.m <= f.l) and f.l.max() == L and f.m.max() == M, 'range')
    c.close(f.clm, a.clm[f.l, f.m], 'clm', rtol=0)
    c.close(f.slm, a.slm[f.l, f.m], 'slm', rtol=0)
    e = f.expand(date=dated)
    agree(c, e, a.clm, a.slm, a.time if dated else None, a.month, 'expand')


@check.section('select', quick=60, thorough=600)
def select(c):
    a = harm(c, nt=c.int(1, 7))
    n = a.clm.shape[2]
    if c.chance(.3):
        # months in another order than that of time
        a.month = a.month[c.rng.permutation(n)]
    keep = snap(a)
    c.note(a=a.clm.shape)
    i = c.int(-n, n-1)
    x = a.index(i)
    agree(c, x, a.clm[..., i], a.slm[..., i], a.time[i], a.month[i], 'index')
    x.clm += 1
    x.truncate(0)
    k = np.sort(c.rng.permutation(n)[:c.int(1, n)])
    months = a.month[k]
    arg = int(months[0]) if len(k) == 1 and c.chance(.5) else \
        c.rng.permutation(months)
    s = a.subset(arg)
    sq = (lambda v: v[..., 0]) if len(k) == 1 else (lambda v: v)
    agree(c, s, sq(a.clm[..., k]), sq(a.slm[..., k]), a.time[k], a.month[k],
        'subset')
    s.clm += 1
    missing = int(a.month.max()) + c.int(1, 5)
    c.raises(IOError, 'missing-month', a.subset, [int(a.month[0]), missing])
    c.ok(same(keep, snap(a)), 'pure')


@check.section('repeated-months', quick=15, thorough=100)
def repeated(c):
    a = harm(c, nt=c.int(2, 6))
    j = c.int(1, a.clm.shape[2]-1)
    a.month[j] = a.month[j-1]
    m = a.month[j]
    c.note(a=a.clm.shape, j=j)
    s = a.subset(int(m))
    k = np.nonzero(a.month == m)[0]
    agree(c, s, a.clm[..., k], a.slm[..., k], a.time[k], a.month[k], 'both')


@check.section('merge', quick=50, thorough=500)
def merge(c):
    n = c.int(1, 6)
    months = 4 + np.cumsum(c.rng.integers(1, 4, n))
    order = c.rng.permutation(n)
    objs, wrap = [], c.chance(.3)
    for i in order:
        h = harm(c, nt=None)
        if c.chance(.3):
            h = harm(c, h.lmax, h.mmax, nt=None)
        h.month = np.int64(months[i])
        h.time = np.float64(2002+(months[i]-.5)/12)
        if wrap:
            h.time, h.month = np.atleast_1d(h.time), np.atleast_1d(h.month)
        objs.append(h)
    date, sort = c.chance(.8), c.chance(.7)
    keep = snap(*objs)
    c.note(n=n, date=date, sort=sort, sizes=[o.clm.shape for o in objs])
    kw = {} if (date and sort) else dict(date=date, sort=sort)
    r = g.harmonics().from_list(objs, **kw)
    c.ok(same(keep, snap(*objs)), 'pure')
    idx = np.argsort(order) if (date and sort) else np.arange(n)
    L, M = min(o.lmax for o in objs), min(o.mmax for o in objs)
    clm = np.stack([objs[i].clm[:L+1, :M+1] for i in idx], axis=-1)
    slm = np.stack([objs[i].slm[:L+1, :M+1] for i in idx], axis=-1)
    t = np.array([float(np.squeeze(objs[i].time)) for i in idx])
    m = np.array([int(np.squeeze(objs[i].month)) for i in idx])
    # months are only re-estimated when two files share one
    c.close(r.clm, clm, 'clm', rtol=0)
    c.close(r.slm, slm, 'slm', rtol=0)
    c.eq((int(r.lmax), int(r.mmax)), (L, M), 'limits')
    if date:
        c.close(np.atleast_1d(r.time), t, 'time', rtol=0)
        c.close(np.atleast_1d(r.month), m, 'month', rtol=0)
    # merging then splitting gives the parts back
    for k, i in enumerate(idx):
        x = r.index(k, date=False)
        c.close(x.clm, objs[i].clm[:L+1, :M+1], 'split', rtol=0)


@check.section('truncate', quick=60, thorough=600)
def truncate(c):
    a = harm(c)
    A, S = a.clm.copy(), a.slm.copy()
    t, mo = np.copy(a.time), np.copy(a.month)
    L = c.int(0, a.lmax+3)
    lmin = 0 if c.chance(.6) else c.int(0, L)
    M = None if c.chance(.5) else c.int(0, L)
    kw = {}
    if lmin:
        kw['lmin'] = lmin
    if M is not None:
        kw['mmax'] = M
    c.note(a=A.shape, L=L, lmin=lmin, M=M)
    r = a.truncate(L, **kw)
    M = L if M is None else M
    c.ok(r is a, 'in-place')
    W = np.zeros((L+1, M+1) + A.shape[2:])
    V = W.copy()
    l, m = min(L+1, A.shape[0]), min(M+1, A.shape[1])
    W[lmin:l, :m], V[lmin:l, :m] = A[lmin:l, :m], S[lmin:l, :m]
    agree(c, a, W, V, t, mo, 'truncate')


@check.section('dimensions', quick=50, thorough=500)
def dimensions(c):
    a = harm(c, nt=c.pick(None, 1, 3), M=c.pick(0, 0, None))
    A, S, t, m = a.clm.copy(), a.slm.copy(), np.copy(a.time), np.copy(a.month)
    c.note(a=A.shape)
    kw = {} if c.chance(.5) else {'update_dimensions': c.chance(.5)}
    b = a.copy().expand_dims(**kw)
    c.eq(b.clm.ndim, 3, 'expanded')
    c.eq((np.ndim(b.time), np.ndim(b.month)), (1, 1), 'expanded-dates')
    c.close(b.clm.reshape(A.shape), A, 'expand-values', rtol=0)
    s = b.squeeze(**kw)
    w = A[..., 0] if (A.ndim == 3 and A.shape[2] == 1) else A
    v = S[..., 0] if (A.ndim == 3 and A.shape[2] == 1) else S
    agree(c, s, w, v, t, m, 'squeeze')
    agree(c, a, A, S, t, m, 'original')


@check.section('iterate', quick=40, thorough=400)
def iterate(c):
    a = harm(c, nt=c.int(1, 6), dated=c.chance(.8))
    keep = snap(a)
    n = a.clm.shape[2]
    c.note(a=a.clm.shape, dated=a.time is not None)
    for _ in range(2):
        k = 0
        for x in a:
            agree(c, x, a.clm[..., k], a.slm[..., k],
                None if a.time is None else a.time[k],
                None if a.time is None else a.month[k], 'iterate')
            x.clm += 1
            k += 1
        c.eq(k, n, 'count')
    c.ok(same(keep, snap(a)), 'pure')
    c.eq(len(a), n if a.time is not None else 0, 'len')
    s = str(a)
    c.ok(str(int(a.lmax)) in s, 'str')
    if a.month is not None:
        c.ok(str(int(a.month.min())) in s and str(int(a.month.max())) in s,
            'str-months')
    c.ok(a['clm'] is a.clm, 'getitem')
    a['slm'] = a.clm
    c.ok(a.slm is a.clm, 'setitem')


@check.section('single', quick=15, thorough=100)
def single(c):
    a = harm(c, nt=None)
    c.note(a=a.clm.shape)
    c.eq(len(a), 1, 'len')
    c.ok(str(int(a.month)) in str(a), 'str')


@check.section('dictionary', quick=30, thorough=300)
def dictionary(c):
    a = harm(c)
    c.note(a=a.clm.shape)
    d = a.to_dict()
    keep = snap(a)
    b = g.harmonics().from_dict(d)
    agree(c, b, a.clm, a.slm, a.time, a.month, 'dict')
    b.clm += 1
    b.slm += 1
    c.ok(same(keep, snap(a)), 'independent')


@check.section('masked', quick=30, thorough=300)
def masked(c):
    a = harm(c)
    A, S, t = a.clm.copy(), a.slm.copy(), np.copy(a.time)
    c.note(a=A.shape)
    r = a.to_masked_array()
    L, M = a.lmax, a.mmax
    c.eq(r.shape[:2], (L+1, 2*L+1), 'shape')
    A3 = A.reshape(L+1, M+1, -1)
    S3 = S.reshape(L+1, M+1, -1)
    for l in range(L+1):
        for m in range(-L, L+1):
            if abs(m) <= min(l, M):
                w = S3[l, -m] if m < 0 else A3[l, m]
                c.ok(np.array_equal(np.asarray(r.data[l, L+m]), w)
                    and not r.mask[l, L+m].any(), 'value')
            else:
                c.ok(bool(np.all(r.mask[l, L+m])), 'mask')
    agree(c, a, A, S, t, a.month, 'original')


@check.section('sequences', quick=60, thorough=800)
def sequences(c):
    """random histories of structural and arithmetic operations"""
    a = harm(c, nt=c.int(2, 6), hi=8)
    A, S = a.clm.copy(), a.slm.copy()
    t, mo = a.time.copy(), a.month.copy()
    log = []
    for _ in range(c.int(3, 12)):
        op = c.pick('copy', 'flat', 'trunc', 'scale', 'conv', 'subset',
            'split', 'add', 'sub', 'mean', 'dict', 'expand', 'str')
        log.append(op)
        if op == 'copy':
            a = a.copy()
        elif op == 'flat':
            a = a.flatten().expand()
        elif op == 'trunc':
            L = c.int(0, A.shape[0]+1)
            M = c.int(0, L)
            a.truncate(L, mmax=M)
            B = np.zeros((L+1, M+1, A.shape[2]))
            T = B.copy()
            l, m = min(L+1, A.shape[0]), min(M+1, A.shape[1])
            B[:l, :m], T[:l, :m] = A[:l, :m], S[:l, :m]
            A, S = B, T
        elif op == 'scale':
            v = c.rng.standard_normal(A.shape[2]) if c.chance(.5) else 1.5
            a = a.scale(v)
            A, S = A*v, S*v
        elif op == 'conv':
            w = c.rng.uniform(.5, 1.5, A.shape[0])
            a.convolve(w)
            A, S = A*w[:, None, None], S*w[:, None, None]
        elif op == 'subset' and A.shape[2] > 2:
            k = np.sort(c.rng.permutation(A.shape[2])[:A.shape[2]-1])
            a = a.subset(mo[k])
            A, S, t, mo = A[..., k], S[..., k], t[k], mo[k]
        elif op == 'split':
            parts = [x for x in a]
            a = g.harmonics().from_list(
                [parts[i] for i in c.rng.permutation(len(parts))])
        elif op in ('add', 'sub'):
            b = harm(c, A.shape[0]-1, A.shape[1]-1, nt=A.shape[2])
            k = 1 if op == 'add' else -1
            (a.add if k == 1 else a.subtract)(b)
            A, S = A+k*b.clm, S+k*b.slm
        elif op == 'mean':
            a.mean(apply=True)
            A, S = A-A.mean(axis=2)[..., None], S-S.mean(axis=2)[..., None]
        elif op == 'dict':
            a = g.harmonics().from_dict(a.to_dict())
        elif op == 'expand':
            a = a.expand_dims()
        elif op == 'str':
            str(a), len(a), a.amplitude
        c.close(a.clm, A, 'history-clm', rtol=1e-10, atol=1e-11,
            message=f'after {log}')
        c.close(a.slm, S, 'history-slm', rtol=1e-10, atol=1e-11,
            message=f'after {log}')
        c.close(a.time, t, 'history-time', rtol=0, message=f'after {log}')
        c.close(a.month, mo, 'history-month', rtol=0, message=f'after {log}')
        c.close(a.amplitude, np.sqrt((A**2+S**2).sum(axis=1)),
            'history-amplitude', rtol=1e-9, atol=1e-10,
            message=f'after {log}')
    c.note(log=log)


@check.section('filenames', quick=30, thorough=300)
def filenames(c):
    """the name of the file of a month stays with the month"""
    n = c.int(1, 6)
    months = 4 + np.cumsum(c.rng.integers(1, 4, n))
    order = c.rng.permutation(n)
    wrap = c.pick(str, pathlib.Path)
    objs = []
    for i in order:
        o = harm(c, 2, 2, nt=None)
        o.month = np.int64(months[i])
        o.time = np.float64(2002+(months[i]-.5)/12)
        o.filename = wrap(f'file{months[i]:03d}.txt')
        objs.append(o)
    sort = c.chance(.7)
    c.note(n=n, sort=sort)
    r = g.harmonics().from_list(objs, sort=sort)
    seen = months if sort else months[order]
    want = [f'file{k:03d}.txt' for k in seen]
    c.eq([str(f) for f in r.filename], want, 'merge')
    cp = r.copy()
    c.eq([str(f) for f in cp.filename], want, 'copy')
    cp.filename[0] = 'other'
    c.eq(str(r.filename[0]), want[0], 'copy-independent')
    i = c.int(-n, n-1)
    c.eq(str(r.index(i).filename), want[i], 'index')
    for k, o in enumerate(r):
        c.eq(str(o.filename), want[k], 'iterate')
    pick = np.sort(c.rng.permutation(n)[:c.int(1, n)])
    sub = r.subset(seen[pick])
    c.eq([str(f) for f in np.atleast_1d(sub.filename)],
        [want[k] for k in pick], 'subset')
