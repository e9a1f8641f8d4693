"""R08: assembling a time series of monthly gravity fields."""
import calendar
import datetime
import gzip
import os
import pathlib
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from checks import R01, R03
from checks.R04 import put, small, num, span_lines, HEAD, yearfrac, MJD0
from checks.R06 import coef, uci_header

check = Check('R08', 'each case lays out the files of a processing center '
    '(monthly fields, laser ranging and geocenter solutions, atmospheric '
    'corrections) with generated numbers in a scratch folder and compares the '
    'assembled series with what was written: monthly fields of the chosen '
    'months, replacements exactly where they belong, everything else '
    'unchanged', ['weekly laser ranging fields, dealiased geocenters and gfc '
    'files are read with the readers the other properties (R02-R06) decide'])

CENTER = {'CSR': 'UTCSR', 'JPL': 'JPLEM', 'GFZ': 'GFZOP', 'COSTG': 'COSTG'}


class Span:
    """months and their calendar spans"""
    def __init__(self, months):
        self.months = np.array(months)
        self.n = len(months)
        self.start, self.end, self.mid = [], [], []
        for m in months:
            y, mo = divmod(int(m)-1, 12)
            y, mo = 2002+y, mo+1
            a = datetime.date(y, mo, 1)
            b = datetime.date(y, mo, calendar.monthrange(y, mo)[1])
            self.start.append(a)
            self.end.append(b)
            self.mid.append((yearfrac(a)+yearfrac(b))/2)
        self.mid = np.array(self.mid)
        self.half = np.zeros(self.n)

    @property
    def first(self):
        return np.array([yearfrac(d) for d in self.start])


class Mission(Span):
    """monthly fields of a center with an index"""
    def __init__(self, c, base, proc=None, drel=None, dset=None, months=None,
            L=None):
        self.proc = proc = c.pick(*CENTER) if proc is None else proc
        self.drel = drel = c.pick('RL06', 'RL06', 'RL05') if drel is None else drel
        self.dset = dset = c.pick('GSM', 'GSM', 'GAC', 'GAD', 'GAA', 'GAB') \
            if dset is None else dset
        if months is None:
            lo = c.pick(4, 45, 92, 156, 168, 172, c.int(4, 250))
            months = [m for m in range(lo, lo+c.int(3, 16)) if c.chance(.85)]
            months = months or [lo]
        Span.__init__(self, months)
        self.L = c.int(5, 8) if L is None else L
        self.dir = os.path.join(base, proc, drel, dset)
        os.makedirs(self.dir)
        self.products = []
        if proc == 'GRAZ':
            for a in self.start:
                name = f'ITSG-Grace2018_n60_{a:%Y-%m}.gfc'
                lines = ['product_type gravity_field', 'modelname x',
                    'earth_gravity_constant 3.9860044150e+14',
                    'radius 6378136.3', f'max_degree {self.L}',
                    'errors formal', 'norm fully_normalized',
                    'tide_system zero_tide', 'end_of_head ====']
                for l in range(self.L+1):
                    for m in range(l+1):
                        v = c.rng.standard_normal(4)*[1e-6, 1e-6, 1e-11, 1e-11]
                        if m == 0:
                            v[1::2] = 0
                        lines.append(f'gfc {l} {m} '+' '.join(repr(float(x)) for x in v))
                put(os.path.join(self.dir, name), lines)
                self.products.append(name)
            names = self.products
        else:
            kind = {'CSR': 'yaml', 'JPL': 'yaml', 'GFZ': 'yaml', 'COSTG': 'gfc'}[proc]
            if drel == 'RL05' and kind == 'yaml':
                kind = 'old'
            for a, b in zip(self.start, self.end):
                p = R01.Product(c, center=CENTER[proc], dset=dset, kind=kind,
                    L=self.L, span=(a, b))
                p.write(self.dir)
                self.products.append(p)
            names = [p.name for p in self.products]
        self.names = names
        put(os.path.join(self.dir, 'index.txt'), names)

    def fields(self, L, M, tide, months):
        out = []
        for m in months:
            i = self.months.tolist().index(m)
            p = self.products[i]
            if self.proc == 'GRAZ':
                r = g.read_gfc_harmonics(os.path.join(self.dir, p), TIDE='tide_free')
                out.append(np.array([r[k][:L+1, :M+1] for k in
                    ('clm', 'slm', 'eclm', 'eslm')]))
            else:
                out.append(R01.expected(p, L, M, tide))
        return np.stack(out, axis=-1)


class Solution(Span):
    """months, values and errors of a laser ranging solution"""
    def __init__(self, months, *v):
        Span.__init__(self, months)
        self.v = v

    def at(self, m):
        i = self.months.tolist().index(m)
        return [x[i] for x in self.v]


def c20(c, base, prov, drel, months):
    s = Span(months)
    v, e = num(c, s.n, 1e-4), small(c, s.n)
    E = e*1e-10
    first = [yearfrac(d) for d in s.start]
    day = [(d-MJD0).days for d in s.start]
    if prov == 'CSR' and drel == 'RL06':
        name = 'C20_RL06.txt'
        a = small(c, s.n)
        put(os.path.join(base, name), ['# x']+[f'{s.mid[t]:.4f} {v[t]:.12E} '
            f'0.5 {e[t]:.4f} {a[t]:.4f} {s.mid[t]-.04:.4f} {s.mid[t]+.04:.4f}'
            for t in range(s.n)])
        v = v-a*1e-10
    elif prov == 'CSR':
        name = 'TN-07_C20_SLR.txt'
        put(os.path.join(base, name), HEAD+['PRODUCT:']+[f'{day[t]:.1f} '
            f'{first[t]:.6f} {v[t]:.12E} 0.1 {e[t]:.4f}' for t in range(s.n)])
    elif prov == 'GFZ':
        name = f'GFZ_{drel}_C20_SLR.dat'
        put(os.path.join(base, name), HEAD+['PRODUCT:']+span_lines(c, s,
            [(v, e)], lambda t: '  G*'))
    return name, Solution(months, v, E)


def tn14(c, base, m20, m30):
    """C20 and C30 of the same file"""
    s = Span(sorted(set(m20) | set(m30)))
    cols = [(num(c, s.n, 1e-4), small(c, s.n)), (num(c, s.n), small(c, s.n))]
    skip = ~np.isin(s.months, m30)
    put(os.path.join(base, 'TN-14_C30_C20_GSFC_SLR.txt'), HEAD+['Product:'] +
        span_lines(c, s, cols, skip=skip))
    (v, e), (w, f) = cols
    return (Solution(s.months, v, e*1e-10),
        Solution(s.months[~skip], w[~skip], f[~skip]*1e-10))


def gravis(c, base, months):
    s = Span(months)
    cols = [(num(c, s.n), small(c, s.n)) for _ in range(4)]
    name = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
    put(os.path.join(base, name), HEAD+['PRODUCT:']+span_lines(c, s, cols))
    return name, cols


def geocenter(c, folder, prov, proc, drel, months, name=None):
    """writes a degree one solution, returns C10, C11, S11 and dates"""
    s = Span(months)
    os.makedirs(folder, exist_ok=True)
    D = coef(c, s.n)
    t = s.mid
    default = {'Tellus': f'TN-13_GEOC_{proc}_{drel}.txt', 'SLF':
        f'{proc}_{drel}_MPIOM_SLF_iter.txt', 'Swenson': f'gad_gsm.{drel}.txt',
        'GFZ': 'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat'}
    default['UCI'] = default['SLF']
    if drel == 'RL05':
        default['Tellus'] = 'deg1_coef_RL05.txt'
    path = os.path.join(folder, name or default[prov])
    if prov == 'Tellus' and drel == 'RL06':
        out = ['TN-13', 'end of header ']
        for i in range(s.n):
            d = f'{s.start[i]:%Y%m%d}.0000 {s.end[i]:%Y%m%d}.0000'
            out += [f'GRCOF2 1 0 {D[0, i]:.10E} 0.0 1.0E-12 0.0 {d}',
                f'GRCOF2 1 1 {D[1, i]:.10E} {D[2, i]:.10E} 1.0E-12 1.0E-12 {d}']
    elif prov == 'Tellus':
        out = ['degree 1', "'(a6,2(i3,1x),4(e19.12,1x))'"]
        for i in range(s.n):
            d = f'{s.start[i]:%Y%m}'
            out += [f'{d} 1 0 {D[0, i]:.10E} 0.0 1.0E-12 0.0',
                f'{d} 1 1 {D[1, i]:.10E} {D[2, i]:.10E} 1.0E-12 1.0E-12']
        t = None
    elif prov in ('SLF', 'UCI'):
        t = np.round(s.mid, 4)
        names = ['C10', 'C11', 'S11']
        out = uci_header(c, list(enumerate(names, 1)))
        out += [f'{t[i]:11.4f} '+' '.join(f'{x: .10E}' for x in D[:, i]) +
            f' {s.months[i]:03d}' for i in range(s.n)]
    elif prov == 'Swenson':
        t = np.round(s.mid, 5)
        D = D*1e9
        out = ['x', 'Time C10 C11 S11']+[f'{t[i]:.5f} '+' '.join(
            f'{x: .10E}' for x in D[:, i]) for i in range(s.n)]
        D = np.array([[float(f'{x:.10E}') for x in r] for r in D])
        D = D*.1/(5.517*6.371e8)
    else:
        t = np.array([float(f'{yearfrac(a):.6f}') for a in s.start])
        out = ['COLUMNS', 'PRODUCT: ']+[f'{(s.start[i]-MJD0).days}.0 '
            f'{t[i]:.6f} '+' '.join(f'{D[k, i]: .10E} 0.5 0.25'
            for k in range(3)) for i in range(s.n)]
    put(path, out)
    return path, Solution(s.months, *D), t


def slr_geocenter(c, base, drel, months):
    """the laser ranging file read with the documented options"""
    s = Span(months)
    folder = os.path.join(base, 'geocenter')
    os.makedirs(folder, exist_ok=True)
    cols = ['MJD', 'time', 'X', 'Y', 'Z', 'XM', 'YM', 'ZM', 'X_sigma',
        'Y_sigma', 'Z_sigma', 'XM_sigma', 'YM_sigma', 'ZM_sigma']
    out = [f'header {i}' for i in range(15)]
    for i in range(s.n):
        x = c.rng.standard_normal(14)*3
        x[0], x[1] = 52000+30*i, s.mid[i]
        out.append(' '.join(f'{v:.8f}' for v in x))
    path = os.path.join(folder, 'gct2est.220_5s')
    put(path, out)
    d = os.path.join(base, 'AOD1B', drel, 'geocenter')
    os.makedirs(d)
    for a in s.start:
        put(f'{d}/AOD1B_{drel}_glo_{a:%Y_%m}.txt', ['# Geocenter time series '
            f'from {drel} AOD1b glo Product', '# Global',
            '# ISO-Time X Y Z'] + [f'{a:%Y-%m}-{j:02d}T00:00:00 ' + ' '.join(
            f'{v:12.8f}' for v in c.rng.standard_normal(3)) for j in (1, 2, 3)])
    r = g.geocenter(radius=6.378136e9).from_SLR(path, AOD=True, release=drel,
        header=15, columns=cols)
    return path, Solution(months, r.C10, r.C11, r.S11), np.array(r.time)


def ecmwf(c, base, L):
    """atmospheric corrections of the three epochs"""
    out = {}
    for key, name in dict(GAE='TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz',
            GAF='TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz',
            GAG='TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz').items():
        v = np.tril(np.ones((L+1, L+1)))*c.rng.standard_normal((2, L+1, L+1))*1e-10
        v = np.array([[[float(f'{x:.12E}') for x in r] for r in k] for k in v])
        v[1][:, 0] = 0
        rows = [(l, m) for l in range(L+1) for m in range(l+1)]
        text = 'FIRST\nEARTH 1.0 2.0\n'+''.join(f'GRCOF2 {l:5d} {m:5d} '
            f'{v[0, l, m]:.12E} {v[1, l, m]:.12E} 0.0 0.0\n' for l, m in rows)
        with gzip.open(os.path.join(base, name), 'wb') as f:
            f.write(text.encode())
        out[key] = v
    return out


def correction(atm, m, L, M):
    k = 'GAE' if 50 <= m <= 97 else 'GAF' if 98 <= m <= 161 else \
        'GAG' if m > 161 else None
    out = np.zeros((2, L+1, M+1))
    if k:
        n = min(L+1, atm[k].shape[1])
        w = min(M+1, atm[k].shape[2])
        out[:, :n, :w] = atm[k][:, :n, :w]
    return out


def choose(c, s):
    """first and last month and the months left out, and the months used"""
    a, b = sorted(c.rng.choice(s.n, 2)) if s.n > 1 else (0, 0)
    a, b = c.pick((0, s.n-1), (0, s.n-1), (a, b))
    lo, hi = int(s.months[a]), int(s.months[b])
    used = [m for m in s.months if lo <= m <= hi]
    missing = [m for m in range(lo, hi+1) if m not in used]
    if len(used) > 2 and c.chance(.3):
        i = c.int(1, len(used)-2)
        missing.append(used.pop(i))
    if c.chance(.2):
        missing += [lo-1, hi+1]
    missing = c.pick(list, np.array, set)(missing) if missing else []
    return lo, hi, missing, [int(m) for m in used]


def compare(c, r, want, used, L, M, tol=1e-12):
    for k, key in enumerate(('clm', 'slm', 'eclm', 'eslm')):
        c.close(r[key], want[k], key, rtol=tol, atol=1e-22)
    c.eq([int(x) for x in r['month']], used, 'month')
    c.ok(np.array_equal(r['l'], np.arange(L+1)), 'degrees')
    c.ok(np.array_equal(r['m'], np.arange(M+1)), 'orders')


def times(s, used):
    out = []
    for m in used:
        i = s.months.tolist().index(m)
        a, b = s.start[i], s.end[i]
        n = 366 if calendar.isleap(a.year) else 365
        out.append(a.year+.5*(a.timetuple().tm_yday+b.timetuple().tm_yday +
            (86399/86400 if s.proc == 'GRAZ' else 0))/n)
    return np.array(out)


@check.section('fields', quick=60, thorough=900)
def fields(c):
    """the chosen months, truncated, without replacements"""
    base = c.scratch()
    s = Mission(c, base, proc=c.cycle('CSR', 'JPL', 'GFZ', 'COSTG', 'GRAZ'),
        L=c.int(2, 8))
    lo, hi, missing, used = choose(c, s)
    L = s.L if s.proc == 'GRAZ' and c.chance(.5) else c.int(2, s.L)
    M = c.pick(None, L, c.int(1, L))
    tide = c.chance(.3)
    c.note(proc=s.proc, drel=s.drel, dset=s.dset, months=s.months, lo=lo,
        hi=hi, missing=list(missing), L=L, M=M, tide=tide)
    kw = dict(MMAX=M) if M is not None or c.chance(.5) else {}
    if tide:
        kw['POLE_TIDE'] = True
    where = pathlib.Path(base) if c.chance(.5) else base
    r = g.grace_input_months(where, s.proc, s.drel, s.dset, L, lo, hi, missing,
        c.pick(None, '', 'None'), c.pick(None, '', 'None'), **kw)
    M = L if M is None else M
    compare(c, r, s.fields(L, M, tide, used), used, L, M)
    c.close(r['time'], times(s, used), 'time', rtol=0, atol=1e-8)
    c.eq(r['title'], '_wPT' if tide else '', 'title')
    c.eq(pathlib.Path(r['directory']), pathlib.Path(s.dir), 'directory')
    c.eq(list(r['attributes']['lineage']), [pathlib.Path(s.names[
        s.months.tolist().index(m)]).stem for m in used], 'lineage')
    c.eq(sorted(os.listdir(s.dir)), sorted(set(s.names) | {'index.txt'}),
        'nothing-written')


LOW = {'20': ((2, 0),), '21': ((2, 1),), '22': ((2, 2),), '30': ((3, 0),),
    '40': ((4, 0),), '50': ((5, 0),)}


@check.section('low-degree', quick=120, thorough=1800)
def low(c):
    """laser ranging replacements of low degree coefficients"""
    base = c.scratch()
    lo = c.pick(160, 170, 172, 176, 177, c.int(20, 230))
    months = [m for m in range(lo, lo+c.int(2, 14)) if c.chance(.8)] or [lo]
    s = Mission(c, base, proc=c.pick('CSR', 'JPL', 'GFZ', 'COSTG'),
        dset='GSM', months=months)
    lo, hi, missing, used = choose(c, s)
    L = c.int(5, s.L)
    M = c.pick(None, c.int(2, L))
    m_ = L if M is None else M
    # months of the solutions: also others, and sometimes not all
    every = np.arange(months[0]-c.int(0, 4), months[-1]+1+c.int(0, 4))
    lack = {}
    flags, kw, repl, names = [], {}, {}, []

    def cover(key):
        k = every
        if c.chance(.08):
            drop = used[c.int(0, len(used)-1)]
            k = k[k != drop]
            lack[key] = {drop}
        return k
    tn = None

    def use14(key):
        nonlocal tn
        if tn is None:
            m20, m30 = cover('20'), cover('30')
            lack.pop('20', None), lack.pop('30', None)
            tn = tn14(c, base, m20, m30)
        # a C20 record holds every line of the file
        k = tn[0 if key == '20' else 1]
        gone = set(used) - set(k.months.tolist())
        if gone:
            lack[key] = gone
        return 'TN-14_C30_C20_GSFC_SLR.txt', k
    gv = wk = fv = None

    def weekly():
        nonlocal wk
        if wk is None:
            path = os.path.join(base, 'gsfc_slr_5x5c61s61.txt')
            t0 = Span([months[0]]).mid[0]-.2
            n = int((Span([months[-1]]).mid[0]+.2-t0)*365.25/7)+2
            R03.gsfc(c, path, n=n, t0=t0)
            wk = path
        return wk

    def gravisfile():
        nonlocal gv
        if gv is None:
            k = cover('gv')
            if 'gv' in lack:
                lack['gv-months'] = lack.pop('gv')
            gv = (k,)+gravis(c, base, k)
        return gv

    def csr5():
        nonlocal fv
        if fv is None:
            y, mo = divmod(int(every[0])-1, 12)
            path = os.path.join(base, 'CSR_Monthly_5x5_Gravity_Harmonics.txt')
            out, _, _ = R03.csr(c, path, n=len(every), start=(2002+y, mo+1))
            fv = out
        return fv
    providers = {'20': ('CSR', 'GFZ', 'GSFC'), '21': ('CSR', 'GFZ', 'GSFC'),
        '22': ('CSR', 'GSFC'), '30': ('CSR', 'LARES', 'GFZ', 'GSFC'),
        '40': ('CSR', 'LARES', 'GSFC'), '50': ('CSR', 'LARES', 'GSFC')}
    args20 = c.pick(None, '')
    date = times(s, used)
    picks = {k: c.pick(None, *v) for k, v in providers.items()}
    if c.chance(.5):
        # one at a time
        one = c.pick(*providers)
        picks = {k: c.pick(*providers[k]) if k == one else None for k in providers}
    for key, prov in picks.items():
        if prov is None:
            continue
        flags.append(f'_w{prov}_' + (key if key in ('21', '22') else 'C'+key))
        if key == '20':
            args20 = prov
            if prov == 'GSFC':
                name, sol = use14('20')
            else:
                name, sol = c20(c, base, prov, s.drel, cover('20'))
        else:
            kw['SLR_'+(key if key in ('21', '22') else 'C'+key)] = prov
            l, m = LOW[key][0]
            if key in ('21', '22') and prov == 'CSR':
                k = cover(key)
                n = len(k)
                name = f'C{key}_S{key}_{s.drel}.txt'
                C, S, ec, es, a, b = num(c, n), num(c, n), *[small(c, n) for _ in range(4)]
                t = Span(k).mid
                put(os.path.join(base, name), ['# x']+[f'{t[i]:.4f} {C[i]:.12E} '
                    f'{S[i]:.12E} {ec[i]:.4f} {es[i]:.4f} {a[i]:.4f} {b[i]:.4f} '
                    f'{t[i]-.04:.4f} {t[i]+.04:.4f}' for i in range(n)])
                sol = Solution(k, C-a*1e-10, ec*1e-10, S-b*1e-10, es*1e-10)
            elif prov == 'GFZ':
                k, name, cols = gravisfile()
                r = (g.SLR.CS2 if key == '21' else g.SLR.C30)(
                    os.path.join(base, name))
                if key == '21':
                    sol = Solution(k, cols[2][0], r['eC2m'], cols[3][0], r['eS2m'])
                else:
                    sol = Solution(k, cols[1][0], r['error'])
            elif prov == 'GSFC' and key == '30':
                name, sol = use14('30')
            elif prov == 'GSFC':
                name = os.path.basename(weekly())
                p = os.path.join(base, name)
                if key in ('21', '22'):
                    r = g.SLR.CS2(p, DATE=date, ORDER=int(key[1]))
                    sol = Solution(np.atleast_1d(r['month']), *[np.atleast_1d(r[x])
                        for x in ('C2m', 'eC2m', 'S2m', 'eS2m')])
                else:
                    r = getattr(g.SLR, 'C'+key)(p, DATE=date)
                    sol = Solution(np.atleast_1d(r['month']),
                        *[np.atleast_1d(r[x]) for x in ('data', 'error')])
            elif prov == 'LARES':
                k = cover(key)
                name = f'C{key}_LARES_filtered.txt'
                t = Span(k).mid
                v = np.array([float(f'{x:.6f}') for x in c.rng.standard_normal(len(k))])
                put(os.path.join(base, name), ['  time   value']+[
                    f'{t[i]:.4f} {v[i]:.6f} 0.0' for i in range(len(k))])
                mean = {'30': 9.5717395773300e-07}.get(key, 0.0)
                sol = Solution(k, 1e-10*v+mean, np.zeros(len(k)))
            else:
                out = csr5()
                name = 'CSR_Monthly_5x5_Gravity_Harmonics.txt'
                sol = Solution(every, out[0, l, m], out[2, l, m])
        names.append((key, prov, name))
        repl[key] = sol
    c.note(proc=s.proc, drel=s.drel, months=s.months, lo=lo, hi=hi, used=used,
        picks=picks, L=L, M=M)
    gone = {}
    for key, sol in repl.items():
        need = [m for m in used if key == '20' or m > 176]
        lost = sorted(set(need)-set(int(x) for x in sol.months))
        if lost:
            gone[key] = lost
    if M is not None:
        kw['MMAX'] = M
    fn = lambda: g.grace_input_months(base, s.proc, s.drel, 'GSM', L, lo, hi,
        missing, args20, None, **kw)
    if gone:
        # the first coefficient without all of its months is reported
        key = [k for k in ('20', '21', '22', '30', '40', '50') if k in gone][0]
        try:
            fn()
        except IOError as e:
            c.ok(all(f'{m:03d}' in str(e) for m in gone[key]),
                'missing-months-named', got=str(e), want=gone[key])
        else:
            c.ok(False, 'missing-months-refused', f'{gone}')
        return
    r = fn()
    want = s.fields(L, m_, False, used)
    for key, sol in repl.items():
        l, m = LOW[key][0]
        for i, gm in enumerate(used):
            if gm in sol.months.tolist() and (key == '20' or gm > 176):
                v = sol.at(gm)
                want[0, l, m, i], want[2, l, m, i] = v[:2]
                if m:
                    want[1, l, m, i], want[3, l, m, i] = v[2:]
    for k, key in enumerate(('clm', 'slm', 'eclm', 'eslm')):
        c.close(r[key], want[k], key, rtol=(2e-10 if k < 2
            else 2e-7), atol=1e-16)
    c.eq([int(x) for x in r['month']], used, 'month')
    c.eq(r['title'], ''.join(flags), 'title')
    text = str(dict(r['attributes']))
    c.ok(all(n in text for _, _, n in names), 'attributes', got=text)


@check.section('degree-one', quick=90, thorough=1300)
def degree_one(c):
    base = c.scratch()
    prov = c.cycle('Tellus', 'SLR', 'SLF', 'UCI', 'Swenson', 'GFZ')
    lo = c.pick(4, 30, 100, 168, c.int(4, 220))
    months = [m for m in range(lo, lo+c.int(2, 14)) if c.chance(.8)] or [lo]
    proc = c.pick('CSR', 'JPL', 'GFZ')
    s = Mission(c, base, proc=proc, dset='GSM', months=months)
    lo, hi, missing, used = choose(c, s)
    L = c.int(2, s.L)
    M = c.pick(None, c.int(1, L))
    m_ = L if M is None else M
    model = c.chance(.4)
    a, b = (c.int(10, 30), c.int(10, 30)) if model else (c.int(0, 3), c.int(0, 3))
    every = np.arange(max(4, months[0]-a), months[-1]+1+b)
    if model or c.chance(.2):
        n = min(len(used), c.int(1, 4))
        drop = [used[i] for i in c.rng.permutation(len(used))[:n]]
        every = np.array([m for m in every if m not in drop])
    folder = os.path.join(base, 'geocenter')
    kw = dict(MODEL_DEG1=model) if model or c.chance(.5) else {}
    if prov == 'SLR':
        if not len(every):
            every = np.arange(months[0], months[-1]+1)
        path, sol, t = slr_geocenter(c, base, s.drel, every)
    else:
        if not len(every):
            every = np.arange(months[0], months[-1]+1)
        other = c.chance(.3)
        if other:
            # a file of the user's choice
            if c.chance(.5):
                geocenter(c, folder, prov, proc, s.drel, every)
            path, sol, t = geocenter(c, os.path.join(base, 'mine'), prov, proc,
                s.drel, every, name='my_degree_one.txt')
            kw['DEG1_FILE'] = c.pick(path, pathlib.Path(path))
        else:
            path, sol, t = geocenter(c, folder, prov, proc, s.drel, every)
            if c.chance(.2):
                kw['DEG1_FILE'] = None
    if t is None:
        t = np.array(g.geocenter().from_tellus(path, JPL=False).time)
    c.note(prov=prov, proc=proc, drel=s.drel, months=s.months, every=every,
        lo=lo, hi=hi, used=used, model=model, L=L, M=M)
    if M is not None:
        kw['MMAX'] = M
    fn = lambda: g.grace_input_months(base, proc, s.drel, 'GSM', L, lo, hi,
        missing, None, prov, **kw)
    have = set(int(x) for x in every)
    lost = [m for m in used if m not in have]
    if lost and not model:
        try:
            fn()
        except IOError as e:
            c.ok(all(f'{m:03d}' in str(e) for m in lost),
                'missing-months-named', got=str(e), want=lost)
        else:
            c.ok(False, 'missing-months-refused')
        return
    r = fn()
    want = s.fields(L, m_, False, used)
    tol = np.zeros(len(used))
    date = times(s, used)
    A = None
    for i, gm in enumerate(used):
        if gm in have:
            v = sol.at(gm)
        else:
            def basis(x):
                x = np.asarray(x)
                cols = [np.ones_like(x), x-2003.3, (x-2003.3)**2]
                for p in (.5, 1.):
                    cols += [np.sin(2*np.pi*x/p), np.cos(2*np.pi*x/p)]
                return np.stack(cols, axis=-1)
            A = basis(t)
            sc = np.linalg.norm(A, axis=0)
            v = [basis(date[i]) @ (np.linalg.lstsq(A/sc, y, rcond=None)[0]/sc)
                for y in sol.v]
            tol[i] = 1e-5*max(np.abs(x).max() for x in sol.v)
        want[0, 1, 0, i], want[0, 1, 1, i], want[1, 1, 1, i] = v
    for k, key in enumerate(('clm', 'slm', 'eclm', 'eslm')):
        for i in range(len(used)):
            c.close(r[key][:, :, i], want[k][:, :, i], key, rtol=1e-9,
                atol=max(1e-18 if k < 2 else 1e-22, tol[i]))
    c.eq([int(x) for x in r['month']], used, 'month')
    c.eq(r['title'], f'_w{prov}_DEG1', 'title')
    c.ok(os.path.basename(path) in str(dict(r['attributes'])), 'attributes')


@check.section('atmosphere', quick=60, thorough=900)
def atmosphere(c):
    base = c.scratch()
    lo = c.pick(46, 93, 157, 4, 170)
    s = Mission(c, base, proc=c.pick('CSR', 'JPL', 'GFZ'), months=[m for m in
        range(lo, lo+c.int(3, 12)) if c.chance(.85)] or [lo])
    lo, hi, missing, used = choose(c, s)
    L = c.int(2, s.L)
    M = c.pick(None, c.int(1, L))
    m_ = L if M is None else M
    atm = ecmwf(c, base, c.pick(s.L, s.L+2))
    tide = c.chance(.3)
    kw = dict(ATM=True)
    if tide:
        kw['POLE_TIDE'] = True
    if M is not None:
        kw['MMAX'] = M
    c.note(dset=s.dset, months=s.months, used=used, L=L, M=M, tide=tide)
    r = g.grace_input_months(base, s.proc, s.drel, s.dset, L, lo, hi, missing,
        None, None, **kw)
    want = s.fields(L, m_, tide, used)
    sign = {'GSM': -1, 'GAC': 1, 'GAA': 1}.get(s.dset, 0)
    for i, gm in enumerate(used):
        want[:2, :, :, i] += sign*correction(atm, gm, L, m_)
    compare(c, r, want, used, L, m_, tol=1e-11)
    c.eq(r['title'], '_wATM'+'_wPT'*tide, 'title')
    direct = g.grace_input_months.__globals__['read_ecmwf_corrections'](
        c.pick(str, pathlib.Path)(base), L, used, MMAX=M)
    for i, gm in enumerate(used):
        k = correction(atm, gm, L, m_)
        c.close(direct['clm'][:, :, i], k[0], 'correction-clm', rtol=1e-12)
        c.close(direct['slm'][:, :, i], k[1], 'correction-slm', rtol=1e-12)


@check.section('absent', quick=6, thorough=30)
def absent(c):
    base = c.scratch()
    s = Mission(c, base, proc='CSR', drel='RL06', dset='GSM', months=[10, 11])
    c.raises(FileNotFoundError, 'directory', g.grace_input_months, base,
        c.pick('JPL', 'csr'), 'RL06', 'GSM', 5, 10, 11, [], None, None)
    os.unlink(os.path.join(s.dir, s.names[1]))
    c.raises(FileNotFoundError, 'file', g.grace_input_months, base, 'CSR',
        'RL06', 'GSM', 5, 10, 11, [], None, None)
    c.raises(FileNotFoundError, 'solution', g.grace_input_months, base, 'CSR',
        'RL06', 'GSM', 5, 10, 10, [], 'GSFC', None)
    c.raises(FileNotFoundError, 'geocenter', g.grace_input_months, base, 'CSR',
        'RL06', 'GSM', 5, 10, 10, [], None, 'Tellus')
