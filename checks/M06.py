"""M06: load Love numbers."""
import io
import pathlib
import sys
import numpy as np
import gravity_toolkit as g
from rv.core import Check

rl = sys.modules['gravity_toolkit.read_love_numbers']
DATA = pathlib.Path(g.__file__).parent / 'data'
MODELS = {0: ('love_numbers', 2, 'l h k l'), 1: ('Load_Love2_CE.dat', 3, 'l h l k'),
    2: ('PREM-LLNs-truncated.dat', 1, 'l h l k'),
    3: ('PREMhard-LLNs-truncated.dat', 1, 'l h l k'),
    4: ('PREMsoft-LLNs-truncated.dat', 1, 'l h l k')}
ORDER = {0: (1, 2, 3), 1: (1, 3, 2), 2: (1, 3, 2), 3: (1, 3, 2), 4: (1, 3, 2)}

check = Check('M06', 'each case picks a distributed or generated load Love '
    'number table, a maximum degree, a frame and an output format and compares '
    'with an independent parse, interpolation and extrapolation of the table')


def parse(lines, header, order):
    tab = {}
    for line in lines[header:]:
        v = [float(x.replace('D', 'E')) for x in line.split()]
        tab[int(v[0])] = tuple(v[i] for i in order)
    return tab


def expect(tab, lmax):
    """h, k, l to degree lmax: linear between tabulated degrees, linear
    extrapolation (constant difference) beyond the last one"""
    deg = np.array(sorted(tab))
    val = np.array([tab[d] for d in deg])
    l = np.arange(lmax+1)
    out = np.zeros((3, lmax+1))
    for i in range(3):
        out[i] = np.interp(l, deg, val[:, i])
    last = deg[-1]
    for k in range(last+1, lmax+1):
        out[:, k] = 2*out[:, k-1] - out[:, k-2]
    return out


def frame(out, ref):
    h, k, l = out[:, 1]
    alpha = {'CE': 0.0, 'CM': 1.0, 'CF': (h+2*l)/3, 'CL': l, 'CH': h}[ref.upper()]
    out = out.copy()
    out[:, 1] -= alpha
    return out


def unpack(c, r, fmt):
    if fmt == 'dict':
        return np.array([r['hl'], r['kl'], r['ll']])
    if fmt == 'zip':
        return np.array(list(r)).T
    if fmt == 'class':
        c.eq(len(r), len(r.hl), 'len')
        c.eq(r.lmax, len(r.hl)-1, 'lmax')
        c.close(r.l, np.arange(len(r.hl)), 'degrees', rtol=0)
        return np.array([r.hl, r.kl, r.ll])
    c.ok(isinstance(r, tuple), 'tuple')
    return np.array(r)


FRAMES = ['CE', 'CM', 'CF', 'CL', 'CH', 'cf', 'cm']


@check.section('models', quick=60, thorough=500)
def models(c):
    k = c.cycle(0, 1, 2, 3, 4)
    name, header, _ = MODELS[k]
    tab = parse((DATA/name).read_text().splitlines(), header, ORDER[k])
    last = max(tab)
    L = c.pick(c.int(1, 120), c.int(1, 700), last, last+1, last+c.int(1, 60),
        last-1)
    fr, fmt = c.pick(FRAMES), c.pick('tuple', 'dict', 'zip', 'class')
    c.note(model=k, L=L, frame=fr, fmt=fmt)
    kw = {} if (fr == 'CF' and c.chance(.5)) else {'REFERENCE': fr}
    r = g.load_love_numbers(L, LOVE_NUMBERS=k, FORMAT=fmt, **kw)
    got = unpack(c, r, fmt)
    want = frame(expect(tab, L), fr)
    lo = 1 if 0 not in tab else 0
    c.close(got[:, lo:], want[:, lo:], 'values', rtol=1e-9, atol=1e-13)
    h, kk, ll = got[:, 1]
    resid = {'CE': kk, 'CM': 1+kk, 'CF': h+2*ll, 'CL': ll, 'CH': h}[fr.upper()]
    c.ok(abs(resid) < 1e-12, 'frame-condition',
        'defining condition of the reference frame')
    if fmt == 'class':
        c.eq(r.reference, fr, 'reference')
        c.eq(r.filename, name, 'filename')
        c.ok(r.citation and r.model, 'citation')


@check.section('unknown', quick=6, thorough=12)
def unknown(c):
    c.raises(ValueError, 'unknown-model', g.load_love_numbers, 10,
        LOVE_NUMBERS=c.int(5, 40))
    c.raises(Exception, 'unknown-frame', g.load_love_numbers, 10,
        REFERENCE=c.pick('CX', 'ITRF', ''))
    c.raises(FileNotFoundError, 'missing-file', g.read_love_numbers,
        c.scratch() + '/none')


@check.section('tables', quick=60, thorough=600)
def tables(c):
    """generated tables: gaps, column orders, headers, truncation"""
    last = c.int(4, 80)
    deg = [0, 1] + sorted(set([last, last-1]) | set(
        int(x) for x in c.rng.integers(2, last+1, c.int(1, last))))
    cols = ['l'] + [['hl', 'kl', 'll'][i] for i in c.rng.permutation(3)]
    if c.chance(.3):
        cols = [cols[i] for i in c.rng.permutation(4)]
    header = c.int(0, 4)
    vals = {d: {'hl': c.rng.normal(), 'kl': c.rng.normal()*.3,
        'll': c.rng.normal()*.1} for d in deg}
    exp = c.pick('E', 'D', 'e')
    lines = ['# header line %s' % ('x'*i) for i in range(header)]
    for d in deg:
        row = []
        for n in cols:
            row.append(f'{d:6d}' if n == 'l' else
                f'{vals[d][n]: .12E}'.replace('E', exp))
        lines.append(' '.join(row))
    text = '\n'.join(lines) + '\n'
    path = pathlib.Path(c.scratch())/'table.txt'
    path.write_text(text)
    src = c.pick('str', 'path', 'bytes')
    source = {'str': str(path), 'path': path,
        'bytes': io.BytesIO(text.encode('utf8'))}[src]
    L = c.pick(None, last, c.int(1, last), last+c.int(1, 10))
    fr = c.pick(FRAMES)
    fmt = c.pick('tuple', 'dict', 'zip', 'class')
    c.note(last=last, degrees=len(deg), cols=cols, header=header, L=L,
        frame=fr, fmt=fmt, src=src, exp=exp)
    r = g.read_love_numbers(source, LMAX=L, HEADER=header, COLUMNS=cols,
        REFERENCE=fr, FORMAT=fmt)
    rows = {d: tuple(float(f'{vals[d][n]:.12E}') for n in ('hl', 'kl', 'll'))
        for d in deg}
    n = last if L is None else L
    inside = {d: v for d, v in rows.items() if d <= n}
    want = expect(inside if n < last else rows, n)
    # above the last tabulated degree not exceeding a truncated LMAX the
    # table's own next degree is out of reach: only judge what is tabulated
    top = max(inside)
    got = unpack(c, r, fmt)
    c.eq(got.shape, (3, n+1), 'shape')
    want = frame(want, fr)
    hi = top+1 if n < last else n+1
    c.close(got[:, :hi], want[:, :hi], 'values', rtol=1e-10, atol=1e-13)


@check.section('transform', quick=40, thorough=300)
def transform(c):
    """frame changes of the Love number object"""
    k = c.cycle(0, 1, 2, 3, 4)
    L = c.int(1, 90)
    fr = c.pick(FRAMES)
    c.note(model=k, L=L, frame=fr)
    a = g.load_love_numbers(L, LOVE_NUMBERS=k, REFERENCE='CE', FORMAT='class')
    ce = np.array([a.hl, a.kl, a.ll]).copy()
    a.transform(fr)
    b = np.array(g.load_love_numbers(L, LOVE_NUMBERS=k, REFERENCE=fr))
    got = np.array(a.to_tuple())
    c.close(got, b, 'same-as-loading', rtol=1e-12, atol=1e-15)
    c.close(np.delete(got, 1, axis=1), np.delete(ce, 1, axis=1),
        'only-degree-one', rtol=0)
    c.eq(a.reference, fr, 'reference')
    # combinations of degree-one numbers that no frame can change
    h, kk, ll = got[:, 1] - ce[:, 1]
    c.ok(abs(h-kk) < 1e-12 and abs(h-ll) < 1e-12, 'isomorphism',
        'all three degree-one numbers shift together')
    d = a.to_dict()
    z = g.love_numbers().from_dict(d) if hasattr(g, 'love_numbers') \
        else rl.love_numbers().from_dict(d)
    c.close(np.array(list(z)), got, 'dict-round-trip', rtol=0)
    c.close(z['kl'], got[1], 'item', rtol=0)
