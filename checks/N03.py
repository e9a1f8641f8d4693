"""N03: file patterns select the files of one product."""
import datetime
import fnmatch
import itertools
import re
import gravity_toolkit as g
from rv.core import Check

check = Check('N03', 'each case names the files of a directory (every center, '
    'release, product, mission, solution, version, constraint, resolution and '
    'compression, with near misses) and compares what the pattern of a product '
    'selects with what the names were made from')
U = g.utilities
CENTERS = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')
PRODUCTS = ('GAA', 'GAB', 'GAC', 'GAD', 'GSM')


class File:
    """one file and what it is"""
    def __init__(self, c, **kw):
        self.__dict__.update(dict(center=None, release=None, product='GSM',
            mission=None, solution=None, version=None, kind=None, suffix=''), **kw)
        s = datetime.date(2002, 4, 1)+datetime.timedelta(c.int(0, 7000))
        e = s+datetime.timedelta(c.int(0, 40))
        days = f'{(e-s).days+1:04d}'
        span = f'{s:%Y%j}-{e:%Y%j}'
        self.span = (s, e)
        if self.release in ('RL06', 'LRI'):
            code = self.solution if self.product == 'GSM' else 'BC01'
            tail = f'{self.mission}_{CENTERS[self.center]}_{code}_06{self.version:02d}'
        elif self.center == 'CNES':
            tail = f'{days}_GRGS_{self.kind}_{self.release}'
        elif self.center == 'CSR':
            tail = f'{days}_UTCSR_{self.kind}_000{self.release[-1]}'
        elif self.center == 'GFZ':
            tail = f'{days}_EIGEN_{self.kind}_{self.version}'
        else:
            tail = f'{days}_JPLEM_{self.kind}_000{self.release[-1]}'
        self.name = f'{self.product}-2_{span}_{tail}{self.suffix}'


def directory(c):
    """files of every kind"""
    out = []
    gz = lambda: c.pick('', '', '.gz')
    for center, p, m in itertools.product(CENTERS, PRODUCTS, ('GRAC', 'GRFO')):
        for sol in ('BA01', 'BB01') if p == 'GSM' else ('BC01',):
            for ver in (0, 1, 3):
                out.append(File(c, center=center, release='RL06', product=p,
                    mission=m, solution=sol, version=ver, suffix=gz()))
        if center == 'CSR' and p == 'GSM':
            for ver in (1, 2):
                out.append(File(c, center=center, release='LRI', mission=m,
                    solution='EA01', version=ver, suffix=gz()))
    for rel, p in itertools.product(('RL04', 'RL05'), PRODUCTS):
        for kind in ('0060', '0096', '0180', '0030') if p == 'GSM' else ('0000',):
            out.append(File(c, center='CSR', release=rel, product=p, kind=kind, suffix=gz()))
        for kind in ('0001', '0000') if p == 'GSM' else ('0001',):
            out.append(File(c, center='JPL', release=rel, product=p, kind=kind, suffix=gz()))
        for kind in ('G---', 'GK2-') if p == 'GSM' else ('0000',):
            for ver in ('0004',) if rel == 'RL04' else ('0005', '005a'):
                out.append(File(c, center='GFZ', release=rel, product=p,
                    kind=kind, version=ver, suffix=gz()))
        for kind in ('0050', '0080', '0090'):
            out.append(File(c, center='CNES', release='0'+rel[-2:]+c.pick('00', '01'),
                product=p, kind=kind, suffix=c.pick('', '.txt', '.gz', '.txt.gz')))
    c.rng.shuffle(out)
    return out


@check.section('products', quick=250, thorough=6000)
def products(c):
    """the files that the pattern of a product selects"""
    files = directory(c)
    product = c.pick('GSM', 'GSM', *PRODUCTS)
    mission = c.pick(None, 'GRAC', 'GRFO')
    args = {} if mission is None else dict(mission=mission)
    center = c.cycle('CSR', 'GFZ', 'JPL', 'CNES')
    of = lambda f: f.product == product and mission in (None, f.mission)
    if center == 'CNES':
        release = c.pick('RL03', 'RL04', 'RL05')
        keep = lambda f: f.center == 'CNES' and f.product == product
    elif product != 'GSM':
        release = c.pick('RL04', 'RL05', 'RL06')
        if center == 'JPL' and release != 'RL06':
            keep = lambda f: f.product == product and (f.center, f.release, f.kind) == \
                (center, release, '0001')
        else:
            # names of these products had no mission before release 6
            if release != 'RL06':
                mission, args = None, {}
            # directories hold the files of one center
            files = [f for f in files if f.center == center or c.chance(.1)
                and f.product != product]
            keep = of
    else:
        release = c.pick('RL04', 'RL05', 'RL06', 'RL06', 'LRI' if center == 'CSR' else 'RL06')
        if release == 'RL06':
            sol, ver = 'BA01', None
            if c.chance(.5):
                args['solution'] = sol = c.pick('BA01', 'BB01')
            if c.chance(.6):
                ver = c.pick(0, 1, 3)
                args['version'] = c.pick(ver, str(ver), f'{ver:02d}')
            keep = lambda f: of(f) and (f.center, f.release, f.solution) == (center,
                'RL06', sol) and ver in (None, f.version)
        elif release == 'LRI':
            ver = c.pick(1, 2)
            release = f'RL06.{ver}LRI'
            keep = lambda f: of(f) and f.solution == 'EA01' and f.version == ver
        else:
            kinds = dict(CSR=('0060',), JPL=('0001',), GFZ=('G---',) if release == 'RL04'
                else ('G---', 'GK2-'))[center]
            keep = lambda f: (f.product, f.center, f.release) == ('GSM', center, release) \
                and f.kind in kinds and f.version != '0005'
    c.note(center=center, release=release, product=product, **args)
    rx = U.compile_regex_pattern(center, release, product, **args)
    want = [f.name for f in files if keep(f)]
    c.eq([f.name for f in files if rx.match(f.name)], want, 'selected')
    check.events['names judged'] += len(files)
    check.events['names selected'] += len(want)
    # no partial transfers, checksums or copies of a selected file
    for n in want[:6]:
        for bad in (n+'.part', n+'.md5', 'x'+n, '.'+n, n[1:], n.replace('-2_', '-1_'),
                n+'.gz.tmp'):
            c.ok(not rx.match(bad), 'near', name=bad)
    for f in [f for f in files if keep(f)][:4]:
        s, e = g.time.parse_grace_file(f.name)
        c.eq([''.join(s), ''.join(e)], [f'{d:%Y%j}' for d in f.span], 'dates')


@check.section('catalogue', quick=100, thorough=2000)
def catalogue(c):
    """granule patterns select what the patterns of local files select"""
    files = [f for f in directory(c) if f.release == 'RL06']
    product = c.pick('GSM', 'GSM', *PRODUCTS)
    sol, ver, args = 'BA01', 0, {}
    if c.chance(.6):
        args['solution'] = sol = c.pick('BA01', 'BB01')
    if c.chance(.6):
        ver = c.pick(0, 1, 3)
        args['version'] = str(ver)
    c.note(product=product, **args)
    pattern = U.cmr_readable_granules(product, **args)
    names = [f.name.replace('.gz', '') for f in files]
    want = [n for n, f in zip(names, files) if f.product == product and
        f.version == ver and (product != 'GSM' or f.solution == sol)]
    c.eq([n for n in names if fnmatch.fnmatchcase(n, pattern)], want, 'granules')
    if product != 'GSM':
        return
    again = []
    for center in CENTERS:
        rx = U.compile_regex_pattern(center, 'RL06', product, solution=sol, version=ver)
        again += [n for n in names if rx.match(n)]
    c.eq(sorted(again), sorted(want), 'agree')


@check.section('invalid', quick=20, thorough=100)
def invalid(c):
    """unknown missions, centers and products are refused"""
    good = dict(PROC='CSR', DREL='RL06', DSET='GSM', mission='GRAC')
    key = c.cycle('PROC', 'DSET', 'mission')
    bad = dict(good, **{key: c.pick('X', 'csr', 'GSMX', 'grace', 'UTCSR', 'GAE')})
    c.note(**bad)
    c.raises(ValueError, 'refused', U.compile_regex_pattern, **bad)
    c.eq(bool(U.compile_regex_pattern(**good).match(
        'GSM-2_2002095-2002120_GRAC_UTCSR_BA01_0600.gz')), True, 'accepted')
