"""R01: reading GRACE/GRACE-FO Level-2 harmonics."""
import calendar
import datetime
import gzip
import io
import os
import pathlib
import numpy as np
import gravity_toolkit as g
from rv.core import Check

check = Check('R01', 'each case writes a Level-2 file (center, release, '
    'product, dates, truncation, header style, compression) with generated '
    'coefficients and reads it by name or file object; coefficients, errors, '
    'dates, header and the requested corrections are compared with what was '
    'written and with the published formulas')

NEW = {'UTCSR': ('GRAC', 'BA01', '0600'), 'JPLEM': ('GRFO', 'BA01', '0603'),
    'GFZOP': ('GRFO', 'BB01', '0600'), 'EIGEN': ('GRAC', 'BA01', '0600')}


def sci(x):
    return f'{x: .12E}'


def yaml_header(L, span, center):
    return f'''header:
  dimensions                            :
    degree                              :  {L}
    order                               :  {L}
  global_attributes                     :
    acknowledgement                     : GRACE is a joint mission
    title                               : "{center}: monthly geopotential"
    time_coverage_start                 : {span[0].isoformat()}T00:00:00.00
    time_coverage_end                   : {span[1].isoformat()}T00:00:00.00
  non-standard_attributes               :
    earth_gravity_param                 :
      value                             : 3.9860044150E+14
    mean_equator_radius                 :
      value                             : 6.3781363000E+06
# End of YAML header'''.splitlines()


def old_header(L, span, center):
    return ['FIRST GEOPOTENTIAL', f'EARTH 0.3986004415E+15 0.6378136300E+07',
        '', f'SHM {L} {L} 1.00 fully normalized inclusive permanent tide',
        'CMMNT product identifier: x']


def gfc_header(L, span, center):
    return ['product_type gravity_field', f'modelname {center}_x',
        'earth_gravity_constant 0.3986004415E+15', 'radius 0.6378136300E+07',
        f'max_degree {L}', 'errors formal', 'norm fully_normalized',
        'tide_system zero_tide', '', 'key L M C S sigmaC sigmaS',
        'end_of_head ===================']


class Product:
    """a generated file and the truth about it"""
    def __init__(self, c, center=None, dset=None, kind=None, L=None, span=None,
            release=None):
        self.L = L = c.int(2, 14) if L is None else L
        kind = c.pick('yaml', 'yaml', 'old', 'rl04', 'gfc', 'ddk') \
            if kind is None else kind
        self.kind = kind
        dset = c.pick('GSM', 'GSM', 'GAC', 'GAD', 'GAA', 'GAB') \
            if dset is None else dset
        if span is None:
            y = c.int(2002, 2024)
            d = c.int(0, 364)
            start = datetime.date(y, 1, 1)+datetime.timedelta(days=d)
            end = start+datetime.timedelta(days=c.int(0, 60))
        else:
            start, end = span
        self.start, self.end = start, end
        dates = f'{start:%Y%j}-{end:%Y%j}'
        if kind == 'yaml':
            center = c.pick('UTCSR', 'JPLEM', 'GFZOP') if center is None else center
            mission, field, rel = NEW[center]
            mission = c.pick('GRAC', 'GRFO')
            name = f'{dset}-2_{dates}_{mission}_{center}_{field}_{rel}'
            suffix, head, flag = '', yaml_header, 'GRCOF2'
        elif kind in ('old', 'rl04'):
            center = c.pick('UTCSR', 'JPLEM', 'EIGEN') if center is None else center
            rel = '0004' if kind == 'rl04' else '0005'
            name = f'{dset}-2_{dates}_{c.int(1, 31):04d}_{center}_{"0060" if center != "EIGEN" else "G---"}_{rel}'
            suffix, head, flag = '', old_header, 'GRCOF2'
        elif kind == 'gfc':
            center = c.pick('COSTG', 'GFZOP') if center is None else center
            name = f'{dset}-2_{dates}_GRAC_{center}_BF01_0100'
            suffix, head, flag = '.gfc', gfc_header, 'gfc'
        else:
            center = c.pick('UTCSR', 'GFZOP', 'JPLEM') if center is None else center
            dset = 'GSM'
            name = f'kfilter_DDK{c.int(1, 8)}_{dset}-2_{dates}_GRAC_{center}_BA01_0600'
            suffix, head, flag = '.gfc', gfc_header, 'gfc'
        self.center, self.dset, self.flag = center, dset, flag
        self.gz = suffix == '' and c.chance(.5)
        self.name = name + suffix + ('.gz' if self.gz else '')
        t = np.tri(L+1, dtype=bool)
        self.coef = np.zeros((4, L+1, L+1))
        for k, s in enumerate((1e-6, 1e-6, 1e-11, 1e-11)):
            v = c.rng.standard_normal((L+1, L+1))*s
            self.coef[k] = np.where(t, np.vectorize(lambda x: float(sci(x)))(v), 0)
        self.coef[1][:, 0] = 0
        self.zero = dset != 'GSM' or c.chance(.3)
        rows = [(l, m) for l in range(L+1) for m in range(l+1)]
        if not self.zero:
            rows.remove((0, 0))
        order = c.pick('degree', 'order', 'random')
        if order == 'order':
            rows.sort(key=lambda r: (r[1], r[0]))
        elif order == 'random':
            rows = [rows[i] for i in c.rng.permutation(len(rows))]
        if c.chance(.2) and len(rows) > 6:
            # some coefficients are not part of the file
            for r in [rows[i] for i in c.rng.permutation(len(rows))[:2]]:
                rows.remove(r)
                self.coef[:, r[0], r[1]] = 0
        have = set(rows)
        lines = head(L, (start, end), center)
        dates8 = f'{start:%Y%m%d}.0000 {end:%Y%m%d}.0000'
        # drift rates of low degree harmonics
        self.drift = np.zeros((2, L+1, L+1))
        for l, m in rows:
            v = [sci(self.coef[k, l, m]) for k in range(4)]
            lines.append(f'{flag} {l:5d}{m:5d} '+' '.join(v) +
                (f' {dates8} nnnn' if flag == 'GRCOF2' else ''))
            if kind == 'rl04' and dset == 'GSM' and l <= 4 and m <= 1 and l >= 2:
                d = c.rng.standard_normal(2)*1e-11
                d = [float(sci(x)) for x in d]
                self.drift[:, l, m] = d
                lines.append(f'GRDOTA {l:5d}{m:5d} '+' '.join(sci(x) for x in d)
                    + ' 0.0 0.0 '+dates8)
        if (0, 0) not in have:
            self.coef[:, 0, 0] = 1.0, 0, 0, 0
        self.text = '\n'.join(lines)+'\n'

    def write(self, folder):
        path = os.path.join(folder, self.name)
        op = gzip.open if self.gz else open
        with op(path, 'wb') as f:
            f.write(self.text.encode())
        return path

    @property
    def time(self):
        def doy(d):
            return d.timetuple().tm_yday
        n = 366 if calendar.isleap(self.start.year) else 365
        last = doy(self.end) + (self.end.year-self.start.year)*n
        return self.start.year + 0.5*(doy(self.start)+last)/n


def julian(d):
    return d.toordinal() + 1721424.5


def mean_pole(t):
    """IERS (2010) mean pole in arcseconds"""
    x = t-2000.0
    if t < 2010:
        return (55.974e-3+1.8243e-3*x+0.18413e-3*x**2+0.007024e-3*x**3,
            -(346.346e-3+1.7896e-3*x-0.10729e-3*x**2-0.000908e-3*x**3))
    return (23.513e-3+7.6141e-3*x, -(358.891e-3-0.6287e-3*x))


def pole_tide(center, t):
    """Wahr et al. (2015) correction to C21, S21"""
    x = t-2000.0
    d1, d2 = 0.62e-3*x, -3.48e-3*x
    if center in ('UTCSR', 'JPLEM', 'JPLMSC'):
        p, q = mean_pole(t)
    elif center in ('EIGEN', 'GFZOP'):
        p, q = 0.0, 0.0
    else:
        return 0.0, 0.0
    return (-1.551e-9*(p-d1) - 0.012e-9*(q-d2),
        0.021e-9*(p-d1) - 1.505e-9*(q-d2))


def expected(p, L, M, tide):
    k = min(L, p.L)+1
    out = np.zeros((4, L+1, L+1))
    out[:, :k, :k] = p.coef[:, :k, :k]
    if p.kind == 'rl04' and p.dset == 'GSM':
        out[:2, :k, :k] += (p.time-2003.3)*p.drift[:, :k, :k]
    if tide and p.dset == 'GSM':
        dc, ds = pole_tide(p.center, p.time)
        out[0, 2, 1] -= dc
        out[1, 2, 1] -= ds
    return out[:, :, :M+1]


def source(c, p):
    path = p.write(c.scratch())
    how = c.pick('str', 'path', 'bytes')
    if how == 'bytes':
        with open(path, 'rb') as f:
            b = io.BytesIO(f.read())
        b.filename = c.pick(p.name, path)
        return how, b
    return how, path if how == 'str' else pathlib.Path(path)


@check.section('read', quick=150, thorough=2000)
def read(c):
    p = Product(c)
    L = c.pick(p.L, c.int(2, p.L), p.L+c.int(1, 4))
    M = c.pick(None, L, c.int(1, L))
    tide = c.chance(.4)
    how, f = source(c, p)
    c.note(name=p.name, how=how, L=L, M=M, file_L=p.L, tide=tide)
    kw = dict(MMAX=M) if M is not None else {}
    if tide:
        kw['POLE_TIDE'] = True
    r = g.read_GRACE_harmonics(f, L, **kw)
    m = L if M is None else M
    want = expected(p, L, m, tide)
    for k, key in enumerate(('clm', 'slm', 'eclm', 'eslm')):
        c.close(r[key], want[k], key, rtol=1e-14, atol=1e-22)
    c.ok(np.array_equal(r['l'], np.arange(L+1)), 'degrees')
    c.ok(np.array_equal(r['m'], np.arange(m+1)), 'orders')
    c.close(r['time'], p.time, 'time', rtol=0, atol=1e-9)
    c.close(r['start'], julian(p.start), 'start', rtol=0, atol=1e-6)
    c.close(r['end'], julian(p.end), 'end', rtol=0, atol=1e-6)
    h = r['header']
    if p.kind == 'yaml':
        c.eq(int(h['dimensions']['degree']), p.L, 'yaml-degree')
        c.eq(float(h['non-standard_attributes']['earth_gravity_param']['value']),
            3.9860044150e14, 'yaml-gm')
        c.ok(p.center in h['global_attributes']['title'], 'yaml-title')
    elif p.flag == 'gfc':
        c.eq(int(h['max_degree']), p.L, 'gfc-degree')
        c.eq(float(h['radius']), 6378136.3, 'gfc-radius')
        c.eq(h['tide_system'].strip(), 'zero_tide', 'gfc-tide')
    else:
        c.eq([x for x in h if not x.strip()], [], 'text-header-blank')
        c.ok(any(x.startswith('EARTH') for x in h), 'text-header')


@check.section('pole-tide', quick=60, thorough=600)
def poletide(c):
    """the correction itself, around the change of the mean pole in 2010"""
    y, d = c.pick((2009, 330), (2009, 350), (2010, 1), (c.int(2002, 2024), c.int(1, 360)))
    start = datetime.date(y, 1, 1)+datetime.timedelta(days=d-1)
    span = (start, start+datetime.timedelta(days=c.int(5, 31)))
    center = c.cycle('UTCSR', 'JPLEM', 'GFZOP', 'EIGEN', 'COSTG')
    kind = 'gfc' if center == 'COSTG' else c.pick('old', 'rl04', 'yaml')
    p = Product(c, center=center, dset=c.pick('GSM', 'GSM', 'GAC'), kind=kind,
        span=span)
    path = p.write(c.scratch())
    c.note(name=p.name)
    a = g.read_GRACE_harmonics(path, p.L)
    b = g.read_GRACE_harmonics(path, p.L, POLE_TIDE=True)
    dc, ds = pole_tide(center, p.time) if p.dset == 'GSM' else (0, 0)
    want = np.zeros_like(a['clm'])
    want[2, 1] = dc
    c.close(a['clm']-b['clm'], want, 'C21', rtol=1e-5, atol=1e-20)
    want[2, 1] = ds
    c.close(a['slm']-b['slm'], want, 'S21', rtol=1e-5, atol=1e-20)
    c.close(a['time'], b['time'], 'time', rtol=0)


@check.section('object', quick=40, thorough=400)
def obj(c):
    """harmonics objects of the file"""
    p = Product(c)
    how, f = source(c, p)
    if how == 'bytes':
        how, f = 'str', os.path.join(c.scratch(), p.name)
    L = c.pick(p.L, c.int(2, p.L))
    M = c.pick(None, c.int(1, L))
    tide = c.chance(.5)
    c.note(name=p.name, L=L, M=M, tide=tide)
    kw = {} if M is None else dict(MMAX=M)
    h = g.harmonics(lmax=L).from_SHM(f, POLE_TIDE=tide, **kw)
    m = L if M is None else M
    want = expected(p, L, m, tide)
    c.close(h.clm, want[0], 'clm', rtol=1e-14, atol=1e-22)
    c.close(h.slm, want[1], 'slm', rtol=1e-14, atol=1e-22)
    c.eq((int(h.lmax), int(h.mmax)), (L, m), 'limits')
    c.close(h.time, p.time, 'time', rtol=0, atol=1e-9)
    y, f12 = divmod(p.time, 1)
    c.eq(int(h.month), 12*(int(y)-2002)+int(np.floor(f12*12))+1, 'month')
    k = g.harmonics(lmax=L).from_file(os.path.join(c.scratch(), p.name),
        format='SHM', POLE_TIDE=tide, **kw)
    c.ok(np.array_equal(k.clm, h.clm) and np.array_equal(k.slm, h.slm),
        'from_file')


@check.section('names', quick=60, thorough=600)
def names(c):
    """missing files are reported, dates come from the file name"""
    p = Product(c)
    path = p.write(c.scratch())
    c.note(name=p.name)
    os.unlink(path)
    c.raises(FileNotFoundError, 'missing', g.read_GRACE_harmonics, path, 4)
    got = g.time.parse_grace_file(path)
    for k, (got, d) in enumerate(zip(got, (p.start, p.end))):
        c.eq((int(got[0]), int(got[1])), (d.year, d.timetuple().tm_yday),
            ('start', 'end')[k]+'-of-granule')
