"""R07: dates and months of directories of monthly fields."""
import calendar
import contextlib
import datetime
import io
import os
import pathlib
import re
import stat
import sys
import numpy as np
import gravity_toolkit as g
import gravity_toolkit.grace_date
import gravity_toolkit.grace_find_months
import gravity_toolkit.grace_months_index
from rv.core import Check

check = Check('R07', 'each case lays out directories of monthly files of one '
    'or several processing centers in a scratch folder with an index, and '
    'compares the months, dates, missing months and date files with the days '
    'the file names state')

D0 = datetime.date(2002, 1, 1)
EPOCH = datetime.datetime(2002, 1, 1)


def grace_name(c, center, dset, start, end, ver=None, style=None):
    d = f'{start:%Y%j}-{end:%Y%j}'
    ver = c.int(0, 9) if ver is None else ver
    style = c.pick('new', 'old') if style is None else style
    if center == 'COSTG':
        return f'{dset}-2_{d}_GRAC_COSTG_BF01_01{ver:02d}.gfc'
    if center == 'GRGS':
        return f'{dset}-2_{d}_0010_GRGS_G---_02{ver:02d}'
    if center == 'JPLMSC':
        return f'{dset}-2_{d}_0029_JPLMSC_0719_00{ver:02d}.txt'
    if style == 'new':
        f = {'UTCSR': 'BA01', 'GFZOP': 'BB01', 'JPLEM': 'BA01',
            'EIGEN': 'BA01'}[center]
        sfx = c.pick('', '.gz', '.gfc')
        return f'{dset}-2_{d}_{c.pick("GRAC", "GRFO")}_{center}_{f}_06{ver:02d}{sfx}'
    f = 'G---' if center == 'EIGEN' else '0060'
    sfx = c.pick('', '.gz', '.txt')
    return f'{dset}-2_{d}_{(end-start).days+1:04d}_{center}_{f}_00{ver:02d}{sfx}'


CENTERS = ('UTCSR', 'GFZOP', 'JPLEM', 'EIGEN', 'COSTG', 'GRGS', 'JPLMSC')


@check.section('names', quick=150, thorough=3000)
def names(c):
    center = c.cycle(*CENTERS)
    dset = c.pick('GSM', 'GAA', 'GAB', 'GAC', 'GAD')
    start = D0+datetime.timedelta(days=c.int(0, 9000))
    end = start+datetime.timedelta(days=c.int(0, 60))
    n = grace_name(c, center, dset, start, end)
    if center != 'COSTG' and dset == 'GSM' and c.chance(.2):
        n = f'kfilter_DDK{c.int(1, 8)}_{n}'
    how = c.pick('name', 'path', 'object')
    f = n if how == 'name' else f'/a/GSM-2_2000001-2000002/{n}'
    f = pathlib.Path(f) if how == 'object' else f
    c.note(name=n, how=how)
    s, e = g.time.parse_grace_file(f)
    c.eq([int(x) for x in s], [start.year, start.timetuple().tm_yday], 'start')
    c.eq([int(x) for x in e], [end.year, end.timetuple().tm_yday], 'end')


@check.section('versions', quick=80, thorough=2000)
def versions(c):
    center = c.cycle(*[x for x in CENTERS if x != 'JPLMSC'])
    style = c.pick('new', 'old')
    n = c.int(1, 12)
    start = D0+datetime.timedelta(days=c.int(0, 7000))
    files, best = [], []
    for i in range(n):
        end = start+datetime.timedelta(days=c.int(5, 40))
        vs = c.rng.permutation(12)[:c.pick(1, 1, 2, 3, 4)]
        fs = [grace_name(c, center, 'GSM', start, end, int(v), style) for v in vs]
        if center == 'EIGEN' and 5 in vs and c.chance(.7):
            # the updated version between 05 and 06
            i = list(vs).index(5)
            a = fs[i].replace('_0005', '_005a')
            if c.chance(.5):
                fs.append(a)
                vs = [*vs, 5.5]
            else:
                fs[i] = a
        best.append(fs[int(np.argmax(vs))])
        files += fs
        # spans may share the first day, never both
        start = start+datetime.timedelta(days=c.int(0, 30)) if c.chance(.8) \
            else start
        while f'{start:%Y%j}' in {b[6:13] for b in best}:
            start += datetime.timedelta(days=1)
    files = [files[i] for i in c.rng.permutation(len(files))]
    how = c.pick('name', 'path', 'object')
    pre = {'name': lambda x: x, 'path': lambda x: '/data/'+x,
        'object': lambda x: pathlib.Path('/data')/x}[how]
    files = [pre(x) for x in files]
    before = list(files)
    r = g.time.reduce_by_date(files)
    c.note(center=center, files=len(files), dates=n, how=how)
    c.eq(r, [pre(b) for b in best], 'newest')
    c.eq(files, before, 'input unchanged')
    c.eq(g.time.reduce_by_date(r), r, 'idempotent')


class Record:
    """a directory of monthly files and the truth about it"""
    def __init__(self, c, base, proc=None, drel='RL06', dset='GSM', n=None,
            first=None):
        self.proc = c.pick('CSR', 'GFZ', 'JPL', 'COSTG', 'GRAZ', 'Swarm',
            'CNES') if proc is None else proc
        given = proc is not None
        proc = self.proc
        self.drel, self.dset = drel, dset
        n = c.int(1, 40) if n is None else n
        k = c.pick(4, 4, c.int(5, 240)) if first is None else first
        spans, months = [], []
        # the first releases of other centers are monthly, as later ones of CNES
        if not given and proc in ('CSR', 'GFZ', 'JPL') and c.chance(.2):
            self.drel = drel = c.pick('RL01', 'RL02')
        if proc == 'CNES':
            self.drel = drel = c.pick('RL01', 'RL02', 'RL03')
        self.decades = proc == 'CNES' and drel != 'RL03'
        if self.decades:
            d = D0+datetime.timedelta(days=c.int(100, 800))
            m = 1
            for i in range(n):
                spans.append((d, d+datetime.timedelta(days=9)))
                months.append(m)
                s = c.pick(1, 1, 1, 2, 3)
                m += s
                d += datetime.timedelta(days=10*s)
        else:
            special = c.chance(.4) and proc in ('CSR', 'GFZ', 'JPL')
            i = 0
            while i < n:
                y, mo = divmod(k-1, 12)
                y, mo = 2002+y, mo+1
                nd = calendar.monthrange(y, mo)[1]
                d = datetime.date(y, mo, 1)
                if special and i >= 1 and months[-1] == k-1 and n-i >= 4 \
                        and nd == 31:
                    # accelerometer shutoffs: the middle of a month lies at
                    # the end of the month before, neighbors are regular
                    for j in range(4):
                        y, mo = divmod(k-1+j, 12)
                        y, mo = 2002+y, mo+1
                        nj = calendar.monthrange(y, mo)[1]
                        a, b = datetime.date(y, mo, 1), datetime.date(y, mo, nj)
                        if j == 1:
                            a -= datetime.timedelta(days=17)
                            b -= datetime.timedelta(days=15)
                        spans.append((a, b))
                        months.append(k+j)
                    i += 4
                    k += 4
                    special = False
                    continue
                if proc in ('GRAZ', 'Swarm') or c.chance(.5):
                    a, b = d, datetime.date(y, mo, nd)
                else:
                    a = d+datetime.timedelta(days=c.int(-5, 5))
                    b = datetime.date(y, mo, nd)+datetime.timedelta(days=c.int(-5, 5))
                spans.append((a, b))
                months.append(k)
                i += 1
                k += c.pick(1, 1, 1, 2, 5)
        self.spans, self.months = spans, np.array(months)
        # times of the first and last observation
        self.clock = [(0, 86399 if proc in ('GRAZ', 'Swarm') else 0)]*len(spans)
        if proc == 'Swarm' and c.chance(.5):
            self.clock = [(c.int(0, 86399), c.int(0, 86399)) for _ in spans]
        files = []
        center = {'CSR': 'UTCSR', 'GFZ': 'GFZOP', 'JPL': 'JPLEM',
            'COSTG': 'COSTG', 'CNES': 'GRGS'}.get(proc)
        for (a, b), (u, v) in zip(spans, self.clock):
            if proc == 'GRAZ':
                f = f'ITSG-{c.pick("Grace2018", "Grace_operational")}_n60_{a:%Y-%m}.gfc'
            elif proc == 'Swarm':
                u, v = [f'{x//3600:02d}{x//60%60:02d}{x%60:02d}' for x in (u, v)]
                f = (f'SW_OPER_EGF_SHA_2__{a:%Y%m%d}T{u}_{b:%Y%m%d}T{v}'
                    '_0101.gfc')
            else:
                f = grace_name(c, center, dset, a, b)
            files.append(f)
        self.files = files
        self.dir = os.path.join(base, proc, drel, dset)
        os.makedirs(self.dir)
        with open(os.path.join(self.dir, 'index.txt'), 'w') as f:
            f.write(''.join(x+'\n' for x in files))
        self.dates = os.path.join(self.dir, f'{proc}_{drel}_DATES.txt')

    @property
    def time(self):
        t = []
        for (a, b), (u, v) in zip(self.spans, self.clock):
            mid = 1.0+(a-datetime.date(a.year, 1, 1)).days + \
                ((b-a).days+(u+v)/86400)/2
            t.append(a.year+mid/(366 if calendar.isleap(a.year) else 365))
        return np.array(t)

    @property
    def total(self):
        return np.array([1.0+(a-D0).days+((b-a).days+(u+v)/86400)/2
            for (a, b), (u, v) in zip(self.spans, self.clock)])

    def table(self, c, path=None):
        with open(path or self.dates) as f:
            head, *rows = f.read().splitlines()
        c.eq(head.split(), ['Mid-date', 'Month', 'Start_Day', 'End_Day',
            'Total_Days'], 'header')
        c.eq(len(rows), len(self.files), 'rows')
        v = np.array([[float(x) for x in r.split()] for r in rows])
        c.close(v[:, 0], self.time, 'date', rtol=0, atol=1e-8)
        c.ok(np.array_equal(v[:, 1], self.months), 'months', got=v[:, 1],
            want=self.months)
        for i, (a, b) in enumerate(self.spans):
            c.eq(v[i, [2, 4]].tolist(), [a.year, b.year], 'years')
            x, y = [s/86400 for s in self.clock[i]]
            c.ok(abs(v[i, 3]-(a.timetuple().tm_yday+x)) <= .5, 'start-day')
            c.ok(abs(v[i, 5]-(b.timetuple().tm_yday+y)) <= .5, 'end-day')
        c.close(v[:, 6], self.total, 'total', rtol=0, atol=.500001)


def call(c, f, base, *a, **kw):
    return f(pathlib.Path(base) if c.chance(.5) else base, *a, **kw)


@check.section('directory', quick=120, thorough=2400)
def directory(c):
    base = c.scratch()
    r = Record(c, base)
    out = c.chance(.7)
    mode = c.pick(0o600, 0o644, 0o775)
    c.note(proc=r.proc, drel=r.drel, n=len(r.files), out=out)
    d = call(c, g.grace_date, base, PROC=r.proc, DREL=r.drel, DSET=r.dset,
        OUTPUT=out, MODE=mode)
    c.eq([int(k) for k in d], r.months.tolist(), 'keys', spans=str(r.spans))
    for k, f in zip(r.months, r.files):
        c.eq(pathlib.Path(d[k]), pathlib.Path(r.dir)/f, 'file')
    c.eq(os.path.exists(r.dates), out, 'written')
    if out:
        r.table(c)
        c.eq(stat.S_IMODE(os.stat(r.dates).st_mode), mode, 'mode')
    c.eq(sorted(os.listdir(r.dir)),
        sorted(['index.txt']+out*[os.path.basename(r.dates)]), 'other files')


@check.section('absent', quick=6, thorough=30)
def absent(c):
    base = c.scratch()
    r = Record(c, base, n=2)
    os.remove(os.path.join(r.dir, 'index.txt'))
    try:
        g.grace_date(base, PROC=r.proc, DREL=r.drel, DSET=r.dset)
    except FileNotFoundError:
        c.ok(True, 'refused')
    else:
        c.ok(False, 'refused')
    c.eq(os.listdir(r.dir), [], 'nothing written')


@check.section('find', quick=100, thorough=2000)
def find(c):
    base = c.scratch()
    r = Record(c, base)
    first = c.pick('before', 'alone')
    if first == 'before':
        g.grace_date(base, PROC=r.proc, DREL=r.drel, DSET=r.dset, OUTPUT=True)
        text = open(r.dates).read()
    v = call(c, g.grace_find_months, base, r.proc, r.drel, DSET=r.dset)
    c.note(proc=r.proc, n=len(r.files), first=first)
    c.ok(np.array_equal(v['months'], r.months), 'months')
    c.close(v['time'], r.time, 'time', rtol=0, atol=1.3e-4)
    c.eq([int(v['start']), int(v['end'])],
        [r.months.min(), r.months.max()], 'range')
    lo = 1 if r.decades else 4
    want = [m for m in range(lo, r.months.max()) if m not in set(r.months)]
    c.eq(v['missing'].tolist(), want, 'missing')
    r.table(c)
    if first == 'before':
        c.eq(open(r.dates).read(), text, 'not rewritten')


MON = [calendar.month_abbr[i] for i in range(13)]


def months_table(c, path, recs):
    rows = open(path).read().splitlines()
    names = sorted(f'{r.proc}_{r.drel}' for r in recs)
    c.eq(rows[0].split(), ['MONTH']+names, 'header')
    by = {f'{r.proc}_{r.drel}': r for r in recs}
    last = max(r.months.max() for r in recs)
    c.eq(len(rows)-1, last-3, 'rows')
    for m, row in zip(range(4, last+1), rows[1:]):
        y, mo = divmod(m-1, 12)
        c.eq([row[:3], row[4:7], row[7:11]],
            [f'{m:03d}', MON[mo+1], str(2002+y)], 'month')
        cells = re.findall(r'\*\* missing \*\*|\S+', row[11:])
        want = []
        for n in names:
            r = by[n]
            if m in r.months:
                a, b = r.spans[r.months.tolist().index(m)]
                want.append(f'{a:%Y_%j}--{b:%Y_%j}')
            else:
                want.append('** missing **')
        c.eq(cells, want, 'cells')


@check.section('index', quick=50, thorough=800)
def index(c):
    base = c.scratch()
    drel = list(c.pick(('RL06',), ('RL05', 'RL06'), ('RL06', 'RL06.1')))
    recs = []
    for p in ('CSR', 'GFZ', 'JPL'):
        for rl in drel:
            if c.chance(.6) or not recs:
                r = Record(c, base, proc=p, drel=rl, n=c.int(1, 20),
                    first=c.int(4, 30))
                recs.append(r)
                g.grace_date(base, PROC=p, DREL=rl, DSET='GSM', OUTPUT=True)
    mode = c.pick(None, 0o600, 0o755)
    call(c, g.grace_months_index, base, DREL=drel, MODE=mode)
    c.note(recs=len(recs), drel=drel)
    path = os.path.join(base, 'GRACE_months.txt')
    months_table(c, path, recs)
    if mode is not None:
        c.eq(stat.S_IMODE(os.stat(path).st_mode), mode, 'mode')


@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = ['x', *a]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.argv = old


@check.section('command', quick=20, thorough=150)
def command(c):
    """the command line programs do what the functions do"""
    base = c.scratch()
    recs = [Record(c, base, proc=p, n=c.int(1, 12), first=c.int(4, 30))
        for p in ('CSR', 'JPL', 'GFZ')[:c.int(1, 3)]]
    p = [r.proc for r in recs]
    with argv('--directory', base, '--center', *p, '--release', 'RL06',
            '--product', 'gsm', '--output', '--mode', '0640'):
        sys.modules['gravity_toolkit.grace_date'].main()
    for r in recs:
        r.table(c)
        c.eq(stat.S_IMODE(os.stat(r.dates).st_mode), 0o640, 'mode')
    with argv('-D', base, '-r', 'RL06', '-M', '0604'):
        sys.modules['gravity_toolkit.grace_months_index'].main()
    path = os.path.join(base, 'GRACE_months.txt')
    months_table(c, path, recs)
    c.eq(stat.S_IMODE(os.stat(path).st_mode), 0o604, 'mode')
