"""X04: products of the atmosphere and ocean dealiasing fields."""
import calendar
import datetime
import gzip
import io
import os
import re
import tarfile
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref, prog
from rv.setup import SUFFIX, grid_of, love_of, read_grid

check = Check('X04', 'each case builds tar files of 3 or 6-hourly fields with '
    'known numbers at every degree, order and epoch, runs a program one to '
    'three times (unchanged, newer or forced inputs) and compares every file '
    'and its modification with the fields put in')

EPOCHS = dict(RL05=4, RL06=8)
DEGREE = dict(RL05=100, RL06=180)
TYPES = ('atm', 'ocn', 'glo', 'oba')
_pool = {}


def pool(L):
    """a few full fields and their text, without the lowest degrees"""
    if L not in _pool:
        rng = np.random.default_rng([L, 77])
        items = []
        for k in range(4):
            cs = np.zeros((2, L+1, L+1))
            lines = []
            for l in range(L+1):
                for m in range(l+1):
                    x = (rng.standard_normal(2)*1e-10/(1+l)).tolist()
                    if m == 0:
                        x[1] = 0.0
                    a, b = f'{x[0]:19.12E}', f'{x[1]:19.12E}'
                    cs[0, l, m], cs[1, l, m] = float(a), float(b)
                    if l > 3:
                        lines.append(f'{l:5d}{m:5d}{a}{b}')
            items.append((cs, '\n'.join(lines)+'\n'))
        _pool[L] = items
    return _pool[L]


def degree_lines(cs):
    out = []
    for l in range(4):
        for m in range(l+1):
            out.append(f'{l:5d}{m:5d}{cs[0, l, m]:19.12E}{cs[1, l, m]:19.12E}')
    return '\n'.join(out)+'\n'


class Day:
    """fields of one day, as a member of a tar file"""
    def __init__(self, c, rel, date, types=TYPES):
        L, nt = DEGREE[rel], EPOCHS[rel]
        self.date, self.cs = date, {}
        n = (L+1)*(L+2)//2
        text = [f'PRODUCER AGENCY               : GFZ\n'
            f'SATELLITE                     : X\n'
            f'TIME FIRST OBS(Y/M/D)         : {date} 00:00:00\n'
            f'NUMBER OF DATA SETS           : {nt*len(types):10d}\n'
            f'END OF HEADER\n']
        self.hours = [h*24//nt for h in range(nt)]
        k = 0
        for h in self.hours:
            for t in types:
                k += 1
                base, body = pool(L)[c.int(0, 3)]
                cs = base.copy()
                low = c.rng.standard_normal((2, 4, 4))*10.0**c.int(-11, -9)
                for l in range(4):
                    for m in range(l+1):
                        for q in range(2):
                            cs[q, l, m] = float(f'{low[q, l, m]*(m > 0 or q == 0):19.12E}')
                text.append(f'DATA SET {k:02d}: {n:8d} COEFFICIENTS FOR {date} '
                    f'{h:02d}:00:00 OF TYPE {t}\n')
                text += [degree_lines(cs), body]
                self.cs[h, t] = cs
        self.text = ''.join(text).encode()

    def decimal(self, h):
        t = datetime.datetime.combine(self.date, datetime.time(h))
        y0 = datetime.datetime(t.year, 1, 1)
        y1 = datetime.datetime(t.year+1, 1, 1)
        return t.year+(t-y0)/(y1-y0)


def write_tar(c, folder, rel, year, month, days, mtime):
    v = rel[2:]
    path = os.path.join(folder, f'AOD1B_{year:04d}-{month:02d}_{v}.'
        + c.pick('tar.gz', 'tgz'))
    zipped = c.chance(.5)
    with tarfile.open(path, 'w:gz', compresslevel=1) as tar:
        for d in days:
            data = gzip.compress(d.text, 1) if zipped else d.text
            info = tarfile.TarInfo(f'AOD1B_{d.date}_X_{v}.asc'+'.gz'*zipped)
            info.size, info.mtime = len(data), mtime
            tar.addfile(info, io.BytesIO(data))
    os.utime(path, (mtime, mtime))
    return path


def lay_out(c, base, rel):
    folder = os.path.join(base, 'AOD1B', rel)
    os.makedirs(folder, exist_ok=True)
    # neighbours that are not dealiasing products
    for name in ('AOD1B_2005-01_05.tar.gz.part', 'README', 'AOD1B_05.txt'):
        if c.chance(.5):
            with open(os.path.join(folder, name), 'w') as f:
                f.write('x')
    return folder


NOW = 1.6e9


def series(c, name, kind, values, fmt):
    """programs that write a value per epoch"""
    base = c.scratch()
    rel = c.cycle('RL05', 'RL06', 'RL05')
    folder = lay_out(c, base, rel)
    chosen = list(c.rng.permutation(TYPES)[:c.int(1, 2)])
    months, tars = {}, {}
    for _ in range(c.int(1, 2)):
        y, m = c.int(2002, 2019), c.int(1, 12)
        n = c.int(1, 2)
        d0 = c.int(1, calendar.monthrange(y, m)[1]-n+1)
        months[y, m] = [Day(c, rel, datetime.date(y, m, d0+i)) for i in range(n)]
        tars[y, m] = write_tar(c, folder, rel, y, m, months[y, m], NOW-1000)
    c.note(rel=rel, months=[str(d.date) for v in months.values() for d in v],
        types=chosen)
    argv = ['--directory', base, '--release', rel, '--product', *chosen]
    prog.run(c, name, argv)
    out = os.path.join(folder, kind)
    want = {f'AOD1B_{rel}_{t}_{y:04d}_{m:02d}.txt': (t, y, m)
        for y, m in months for t in chosen}
    c.eq(sorted(os.listdir(out)), sorted(want), f'{kind}-files')

    def judge(f, t, days, key):
        lines = [x.split() for x in open(os.path.join(out, f)) if x[0] != '#']
        expect = [(d, h) for d in days for h in d.hours]
        c.eq([x[0] for x in lines], [f'{d.date}T{h:02d}:00:00' for d, h in
            expect], f'{kind}-epochs{key}')
        got = np.array([[float(v) for v in x[1:]] for x in lines])
        ref_ = np.array([values(d.cs[h, t]) for d, h in expect])
        c.close(got, ref_, f'{kind}-values{key}', rtol=fmt[0], atol=fmt[1])
    for f, (t, y, m) in want.items():
        judge(f, t, months[y, m], '')
    # a second run leaves the results of unchanged inputs alone
    mode = c.cycle('unchanged', 'newer', 'clobber')
    y, m = c.pick(list(months))
    for f in want:
        p = os.path.join(out, f)
        os.utime(p, (NOW, NOW))
    new = [Day(c, rel, d.date) for d in months[y, m]]
    os.remove(tars[y, m])
    write_tar(c, folder, rel, y, m, new, NOW+(100 if mode == 'newer' else -100))
    prog.run(c, name, argv+['--clobber']*(mode == 'clobber'), key='completes-again')
    for f, (t, yy, mm) in want.items():
        changed = os.stat(os.path.join(out, f)).st_mtime != NOW
        updated = mode == 'clobber' or (mode == 'newer' and (yy, mm) == (y, m))
        c.eq(changed, updated, f'{kind}-{mode}', file=f)
        judge(f, t, new if updated and (yy, mm) == (y, m) else months[yy, mm],
            '-again')


@check.section('geocenter', quick=4, thorough=50)
def geocenter(c):
    """X, Y, Z in mm from degree one"""
    k = np.sqrt(3.0)*6.371000790009159e9
    series(c, 'aod1b_geocenter', 'geocenter', lambda cs: [k*cs[0, 1, 1],
        k*cs[1, 1, 1], k*cs[0, 1, 0]], (1e-7, 1.01e-8))


@check.section('oblateness', quick=4, thorough=50)
def oblateness(c):
    """C20"""
    series(c, 'aod1b_oblateness', 'oblateness', lambda cs: [cs[0, 2, 0]],
        (1e-8, 0))


def monthly(cs_list, L):
    return np.mean([cs[:, :L+1, :L+1] for cs in cs_list], axis=0)


@check.section('monthly', quick=8, thorough=70)
def monthly_mean(c):
    """dealiasing products of the periods of monthly fields"""
    base = c.scratch()
    rel = 'RL06' if c.index % 7 == 3 else 'RL05'
    proc = c.pick('CSR', 'GFZ', 'JPL', 'CNES')
    form = c.cycle('SHM', 'netCDF4', 'ascii', 'HDF5')
    folder = lay_out(c, base, rel)
    products = list(c.rng.permutation(['GAA', 'GAB', 'GAC', 'GAD'])[:c.int(1, 2)])
    kind = dict(GAA='atm', GAB='ocn', GAC='glo', GAD='oba')
    L = c.pick(None, DEGREE[rel], c.int(2, 60))
    # short periods, some over the end of a month or year
    periods = []
    day = datetime.date(c.int(2002, 2019), c.int(1, 12), c.int(1, 28))
    anchor = c.cycle('leap', 'last', 'free', 'month', 'last', 'year', 'free')
    if anchor == 'leap':
        # over the end of a leap year
        day = datetime.date(c.pick(2004, 2008, 2012, 2016), 12, 31)
    elif anchor == 'last':
        # the last month of the first mission and the first of the second
        day = datetime.date(2017, 6, c.int(2, 20))
    elif anchor == 'month':
        day = datetime.date(day.year, day.month, calendar.monthrange(day.year, day.month)[1])
    elif anchor == 'year':
        day = datetime.date(day.year, 12, 30)
    for _ in range(c.int(1 + (anchor == 'last'), 3)):
        n = c.int(1, 3 if rel == 'RL05' else 2)
        if anchor in ('leap', 'month', 'year') and not periods:
            n = 2+(anchor == 'year')
        periods.append([day+datetime.timedelta(i) for i in range(n)])
        day = periods[-1][-1]+datetime.timedelta(c.int(1, 40))
        # one field per calendar month
        if day.month == periods[-1][len(periods[-1])//2].month:
            day = (day.replace(day=1)+datetime.timedelta(32)).replace(day=c.int(1, 20))
        if anchor == 'last' and len(periods) == 1:
            day = datetime.date(2018, 6, c.int(2, 20))
    needed = sorted(set(d for p in periods for d in p))
    # one day that no file has
    gone = c.pick(needed) if c.chance(.4) and len(needed) > 1 \
        and anchor not in ('leap', 'month', 'last') else None
    days = {d: Day(c, rel, d, [kind[p] for p in products] + ['xyz'])
        for d in needed if d != gone}
    # a neighbour that does not belong to any period
    extra = periods[-1][-1]+datetime.timedelta(1)
    days[extra] = Day(c, rel, extra, [kind[p] for p in products])
    months = {}
    for d in sorted(days):
        months.setdefault((d.year, d.month), []).append(days[d])
    tars = {k: write_tar(c, folder, rel, *k, v, NOW-1000) for k, v in months.items()}
    gsm = os.path.join(base, proc, rel, 'GSM')
    os.makedirs(gsm)
    gm = [(p[len(p)//2].year-2002)*12+p[len(p)//2].month for p in periods]
    # months with accelerometer shutoffs are numbered by their neighbors
    renumbered = anchor in ('free', 'month') and gm[-1] != 186
    gm[-1] += renumbered
    rows = []
    with open(os.path.join(gsm, f'{proc}_{rel}_DATES.txt'), 'w') as f:
        print('Mid-date      Month   Start_Day   End_Day    Total_Days', file=f)
        for i, p in enumerate(periods):
            t = p[0].year+(p[0].timetuple().tm_yday-1+len(p)/2)/(366 if
                calendar.isleap(p[0].year) else 365)
            rows.append(f'{t:13.8f} {gm[i]:03d} {p[0].year:8.0f} '
                f'{p[0].timetuple().tm_yday:03d} {p[-1].year:8.0f} '
                f'{p[-1].timetuple().tm_yday:03d} {len(p):8.0f}')
            print(rows[-1], file=f)
    c.note(rel=rel, proc=proc, form=form, L=L, products=products,
        periods=[[str(d) for d in p] for p in periods], gone=str(gone))
    argv = ['--directory', base, '--center', proc, '--release', rel,
        '--product', *products, '--format', form]
    if L is not None:
        argv += ['--lmax', L]
    elif rel == 'RL05':
        # the default of the option is the degree of RL06
        argv += ['--lmax', 100]
    prog.run(c, 'dealiasing_monthly_mean', argv)
    L = L or DEGREE[rel]
    center = dict(CSR='UTCSR', JPL='JPLEM').get(proc,
        'EIGEN' if rel == 'RL05' else 'GFZOP')

    def name(p, i):
        a, b = periods[i][0], periods[i][-1]
        if form == 'SHM':
            return (f'{p}-2_{a.year}{a.timetuple().tm_yday:03d}-{b.year}'
                f'{b.timetuple().tm_yday:03d}_{"GRAC" if gm[i] <= 186 else "GRFO"}'
                f'_{center}_BC01_{rel[2:]}00.gz')
        return f'{proc}_{rel}_{p}_CLM_L{L:d}_{gm[i]:03d}.{SUFFIX[form]}'

    def judge(p, i, key=''):
        t = kind[p]
        path = os.path.join(base, proc, rel, p, name(p, i))
        used = [days[d] for d in periods[i]]
        want = monthly([d.cs[h, t] for d in used for h in d.hours], L)
        if form == 'SHM':
            got = np.zeros((2, L+1, L+1))
            head, on, n = [], False, 0
            span = (f'{periods[i][0]:%Y%m%d}.0000', f'{periods[i][-1]:%Y%m%d}.0000')
            for line in gzip.open(path, 'rt'):
                if on:
                    w = line.split()
                    got[:, int(w[1]), int(w[2])] = float(w[3]), float(w[4])
                    c.ok(w[0] == 'GRCOF2' and tuple(w[7:9]) == span and
                        float(w[5]) == 0 and float(w[6]) == 0,
                        'shm-record'+key, line)
                    n += 1
                else:
                    head.append(line.rstrip())
                    on = line.startswith('# End of YAML header')
            c.eq(n, (L+1)*(L+2)//2, 'shm-records'+key)
            value = {h.split(':')[0].strip(): h.split(':', 1)[1].strip()
                for h in head if ':' in h}
            for k, v in (('degree', str(L)), ('order', str(L)),
                    ('product_id', f'{p}-2'), ('product_version', f'Release-{rel[2:]}'),
                    ('time_coverage_start', str(periods[i][0])),
                    ('time_coverage_end', str(periods[i][-1]))):
                c.eq(value.get(k), v, 'shm-header'+key, entry=k)
            c.near(got, want, 'mean-shm'+key, tol=1e-12)
            # and as the fields of a month are read
            r = g.read_GRACE_harmonics(path, L)
            c.near(np.array([r['clm'], r['slm']]), got, 'shm-reread'+key, tol=1e-15)
        else:
            y = g.harmonics().from_file(path, format=form, date=True)
            c.eq((y.lmax, y.mmax), (L, L), 'degree'+key)
            c.near(np.array([y.clm, y.slm]), want, 'mean'+key, tol=1e-9)
            if form != 'ascii':
                # ascii files hold the date alone
                c.eq(int(np.squeeze(y.month)), gm[i], 'month'+key)
            t = np.mean([d.decimal(h) for d in used for h in d.hours])
            c.close(float(np.squeeze(y.time)), t, 'time'+key, rtol=0,
                atol=5.1e-5 if form == 'ascii' else 1e-9)
    whole = [i for i, p in enumerate(periods) if gone not in p]
    for p in products:
        out = os.path.join(base, proc, rel, p)
        files = {name(p, i) for i in whole}
        dates = f'{proc}_{rel}_DATES.txt'
        others = {dates} | ({'index.txt'} if form == 'SHM' else set())
        c.eq(sorted(os.listdir(out)), sorted(files | others), 'files')
        if form == 'SHM':
            c.eq(open(os.path.join(out, 'index.txt')).read().split(),
                sorted(files), 'index')
        got = [x.split() for x in open(os.path.join(out, dates))][1:]
        c.eq([r[1:] for r in got], [rows[i].split()[1:] for i in whole], 'dates')
        c.close([float(r[0]) for r in got], [float(rows[i].split()[0]) for i in
            whole], 'mid-dates', rtol=0, atol=1e-8)
        for i in whole:
            judge(p, i)
    # again with one newer month, unchanged or forced
    if not whole:
        return
    mode = 'newer' if anchor in ('leap', 'month') else \
        c.pick('unchanged', 'newer', 'clobber')
    for p in products:
        for i in whole:
            os.utime(os.path.join(base, proc, rel, p, name(p, i)), (NOW, NOW))
    k = c.pick(list(months))
    for d in months[k]:
        days[d.date] = Day(c, rel, d.date, [kind[p] for p in products])
    os.remove(tars[k])
    write_tar(c, folder, rel, *k, [days[d.date] for d in months[k]],
        NOW+(100 if mode == 'newer' else -100))
    prog.run(c, 'dealiasing_monthly_mean', argv+['--clobber']*(mode == 'clobber'),
        key='completes-again')
    for p in products:
        for i in whole:
            path = os.path.join(base, proc, rel, p, name(p, i))
            hit = any((d.year, d.month) == k for d in periods[i])
            updated = mode == 'clobber' or (mode == 'newer' and hit)
            c.eq(os.stat(path).st_mtime != NOW, updated, mode, file=name(p, i))
            if updated:
                judge(p, i, '-again')


@check.section('uplift', quick=2, thorough=24)
def uplift(c):
    """elastic crustal uplift at each epoch of a month"""
    base = c.scratch()
    rel = 'RL06' if c.index % 8 == 7 else 'RL05'
    L = DEGREE[rel]
    folder = lay_out(c, base, rel)
    form = c.cycle('netCDF4', 'HDF5')
    t = c.pick(*TYPES)
    y, m = c.int(2002, 2019), 2
    if c.chance(.3):
        m = c.int(1, 12)
    n = calendar.monthrange(y, m)[1]
    month = [Day(c, rel, datetime.date(y, m, i+1), (t, )) for i in range(n)]
    order = list(c.rng.permutation(n)) if c.chance(.5) else range(n)
    write_tar(c, folder, rel, y, m, [month[i] for i in order], NOW-1000)
    # other years are not chosen
    other = y+1
    write_tar(c, folder, rel, other, m, [], NOW-1000)
    grid, lon, lat, d, kind = grid_of(c, start=0.0)
    love, frame = c.int(0, 4), c.pick('CF', 'CM', 'CE')
    out = os.path.join(base, 'out', *c.pick((), ('new', 'run')))
    argv = ['--directory', base, '--output-directory', out, '--release', rel,
        '--product', t, '--year', y, *c.pick([], [other+1]), '--love', love,
        '--reference', frame, *grid, '--format', form]
    c.note(rel=rel, form=form, type=t, month=f'{y}-{m}', argv=argv[8:])
    prog.run(c, 'dealiasing_global_uplift', argv)
    name = f'AOD1B_{rel}_{t}_mmCU_{y:04d}_{m:02d}.{SUFFIX[form]}'
    c.eq(os.listdir(out), [name], 'uplift-files')
    v = read_grid(os.path.join(out, name), form)
    c.close(v['lon'], lon, 'uplift-lon', rtol=0, atol=1e-9)
    c.close(v['lat'], lat, 'uplift-lat', rtol=0, atol=1e-9)
    epochs = [(x, h) for x in month for h in x.hours]
    c.eq(np.asarray(v['time']).tolist(), [24*(x.date.day-1)+h for x, h in epochs],
        'uplift-hours')
    hl, kl, ll = love_of(L, love, frame)
    f = 6.371000790009159e9*hl[:L+1]/(1+kl[:L+1])
    want = np.array([ref.synth(f[:, None]*x.cs[h, t][0], f[:, None]*x.cs[h, t][1],
        lon, lat).T for x, h in epochs])
    got = np.asarray(v['z'], dtype=float)
    if got.shape[0] != len(epochs):
        got = np.moveaxis(got, -1, 0)
    c.near(got, want, 'uplift-values', tol=1e-8)
    c.check.events['epochs summed'] += len(epochs)


if __name__ == '__main__':
    check.main()
