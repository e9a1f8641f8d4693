"""X05: local copies of the archives of data centers."""
import calendar
import contextlib
import datetime
import gzip
import io
import json
import os
import re
import struct
import tarfile
import time
import urllib.parse
import numpy as np
from rv.core import Check
from rv import prog
from rv.web import Web, Page
from checks import N01, N02

check = Check('X05', 'each case fills servers of a data center (on the loopback '
    'interface), puts local files into any state (missing, older, same age, '
    'newer), runs its program with generated options, optionally with a fault '
    'in one transfer, and compares every local file (bytes, time, mode), every '
    'index and, after faults, the state that the next run leaves',
    ['the month of a file and the newest of several versions come from the '
     'file names (R07, T03)'])
WEB = None
NOW = 1.5e9


def web():
    global WEB
    if WEB is None:
        WEB = Web()
    WEB.clear()
    return WEB


class Mirror:
    """what a local copy has to become"""
    def __init__(self, c, base):
        if c.chance(.4):
            # a folder that does not exist yet (unless local files are in it)
            base = os.path.join(base, 'gravity', 'archive')
        self.c, self.base, self.want, self.plan, self.old = c, base, {}, [], {}
        self.mode = c.pick(0o775, 0o775, 0o640, 0o750)
        # folders have to stay usable
        self.list = self.clobber = self.checksum = self.log = False
        self.faulty = None

    def options(self, *names):
        for n in names:
            setattr(self, n, self.c.chance(.2))
        self.argv = ['--directory', self.base]+[f'--{n}' for n in
            ('list', 'clobber', 'checksum', 'log') if getattr(self, n)]
        if self.mode != 0o775 and self.c.chance(.8):
            self.argv += ['--mode', f'{self.mode:o}']
        else:
            self.mode = 0o775
        if self.c.chance(.3):
            self.argv += ['--timeout', 5]

    def file(self, path, body, mtime, page=None, seconds=True):
        """a remote file and its local copy, which may have any state"""
        c = self.c
        full = os.path.join(self.base, path)
        state = c.pick('absent', 'absent', 'older', 'same', 'same', 'near', 'newer')
        mine = b'old '+body[:5] if c.chance(.7) else body
        mt = dict(older=mtime-c.int(2, 10**6), same=mtime, newer=mtime+c.int(2, 10**6),
            near=mtime//2*2+c.int(0, 1)).get(state)
        self.old[path] = None
        if state != 'absent':
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'wb') as f:
                f.write(mine)
            os.utime(full, (NOW, mt))
            os.chmod(full, 0o600)
            self.old[path] = (mine, mt)
        if self.checksum and state != 'absent':
            update = mine != body
        else:
            update = state in ('absent', 'older')
        update = update or self.clobber
        self.want[path] = (body, mtime)
        if update and not self.list:
            self.plan.append((path, page))

    def spoil(self):
        """one of the transfers fails"""
        picks = [p for p in self.plan if p[1] is not None and len(p[1].body) > 1]
        if picks and self.c.chance(.35):
            path, page = self.c.pick(picks)
            page.fault = self.c.pick('truncate', 'reset', 'truncate')
            self.faulty = path, page

    def state(self, path):
        full = os.path.join(self.base, path)
        if not os.path.exists(full):
            return None
        with open(full, 'rb') as f:
            return f.read(), int(os.stat(full).st_mtime)

    def new(self, path, key):
        c = self.c
        body, mtime = self.want[path]
        full = os.path.join(self.base, path)
        c.ok(os.path.exists(full), key+'-stored', f'{path} was not stored')
        got = self.state(path)
        c.ok(got[0] == body, key+'-bytes', f'{path} has {len(got[0])} bytes, '
            f'{len(body)} expected')
        if mtime is not None:
            c.eq(got[1], mtime, key+'-time', file=path)
        c.eq(os.stat(full).st_mode & 0o777, self.mode, key+'-mode', file=path)

    def kept(self, path, key):
        self.c.eq(self.state(path) == self.old[path], True, key, file=path,
            before=str(self.old[path])[:80], after=str(self.state(path))[:80])

    def only(self, ignore=()):
        """no other file in the folders"""
        have = set()
        for d, _, names in os.walk(self.base):
            have |= {os.path.relpath(os.path.join(d, n), self.base) for n in names}
        have = {p for p in have if not any(re.search(i, p) for i in ignore)}
        mine = {p for p in self.old if self.old[p] is not None} | \
            {p for p, _ in self.plan}
        self.c.eq(sorted(have), sorted(mine), 'no-others')

    def run(self, w, name, argv=(), ignore=()):
        c, ignore = self.c, [r'(^|/)index\.txt$', r'_sync_.*\.log$', *ignore]
        self.spoil()
        todo = {p for p, _ in self.plan}
        c.note(argv=[str(a) for a in self.argv[2:]]+[str(a) for a in argv],
            files=len(self.want), updates=len(todo), fault=self.faulty and
            (self.faulty[0], self.faulty[1].fault))
        argv = self.argv+list(argv)
        real = self.log
        with w.internet():
            if self.faulty:
                try:
                    r = prog.attempt(name, argv, real=real)
                    failed = r.failed
                except Exception:
                    failed = True
                c.ok(failed, 'fault-reported', 'a failed transfer was not reported')
                c.check.events['failed transfers'] += 1
                path, page = self.faulty
                self.kept(path, 'kept-after-fault')
                for p in todo - {path}:
                    if self.state(p) != self.old[p]:
                        self.new(p, 'before-fault')
                for p in set(self.want)-todo:
                    self.kept(p, 'unchanged')
                page.fault = None
            r = prog.run(c, name, argv, real=real)
        if self.log:
            logs = [n for n in os.listdir(self.base) if n.endswith('.log')]
            c.eq(len(logs), 1, 'log')
            text = open(os.path.join(self.base, logs[0])).read()
            for p in (todo if not self.faulty else ()):
                c.ok(os.path.basename(p) in text, 'logged', p)
        for p in self.want:
            if p in todo:
                self.new(p, 'updated')
            else:
                self.kept(p, 'unchanged')
        c.check.events['files updated'] += len(todo)
        c.check.events['files kept'] += len(self.want)-len(todo)
        self.only(ignore)
        return r

    def index(self, folder, want):
        c = self.c
        p = os.path.join(self.base, folder, 'index.txt')
        c.ok(os.path.exists(p), 'index-stored', p)
        c.eq(open(p).read().split('\n'), [*want, ''], 'index', folder=folder)
        c.eq(os.stat(p).st_mode & 0o777, self.mode, 'index-mode')

    def have(self, folder, keep=lambda n: True):
        """names that a folder holds after the run"""
        done = {p for p, _ in self.plan}
        return sorted(os.path.basename(p) for p in self.want if
            os.path.dirname(p) == folder and keep(os.path.basename(p)) and
            (p in done or self.old[p] is not None))


def blob(c):
    return c.rng.bytes(c.pick(0, c.int(2, 300), c.int(300, 20000), 16384))


def stamp(c):
    return c.int(10**9, 14*10**8)


def span(c, y0=2003, y1=2019):
    a = datetime.date(c.int(y0, y1), c.int(1, 12), 1)
    return a, a.replace(day=calendar.monthrange(a.year, a.month)[1])


def http_folder(w, url, items):
    """an index page of a server, to the minute"""
    rows = ['<tr><th valign="top"></th><th><a href="?C=N;O=D">Name</a></th></tr>'
        '<tr><td valign="top"><img src="/i"></td><td><a href="/pub/">Parent '
        'Directory</a></td><td>&nbsp;</td><td align="right">  - </td><td>&nbsp;</td></tr>']
    rows += [f'<tr><td valign="top"><img src="/i.gif"></td><td><a href="{n}">{n}</a></td>'
        f'<td align="right">{time.strftime("%Y-%m-%d %H:%M", time.gmtime(t))}  </td>'
        '<td align="right">1.2K</td><td>&nbsp;</td></tr>' for n, t in items]
    w.put(url, Page('<html><body><table>'+'\n'.join(rows)+'</table></body></html>'))


@check.section('itsg', quick=40, thorough=500)
def itsg(c):
    """fields and background models of Graz"""
    w = web()
    host = 'http://ftp.tugraz.at'
    w.put(host, Page('ok'))
    w.put(host+'/', Page('ok'))
    m = Mirror(c, c.scratch())
    m.options('list', 'clobber', 'log')
    releases = list(c.rng.permutation(['Grace2014', 'Grace2016', 'Grace2018',
        'Grace_operational'])[:c.int(1, 2)])
    if {'Grace2018', 'Grace_operational'} <= set(releases) and m.log:
        releases = releases[:1]
    lmax = c.pick(60, 96, 120)
    if m.log and len(releases) > 1:
        releases = releases[:1]
    local = dict(Grace2014='2014', Grace2016='2016', Grace2018='2018',
        Grace_operational='2018')
    kinds = dict(atmosphere='GAA', ocean='GAB', dealiasing='GAC', oceanBottomPressure='GAD')
    seen = set()
    for rel in releases:
        root = f'{host}/outgoing/ITSG/GRACE/ITSG-{rel}/monthly'
        for sub in ('background' if rel == 'Grace2014' else 'monthly_background', f'monthly_n{lmax}'):
            items = []
            for _ in range(c.int(0, 5)):
                a, _b = span(c)
                if sub.startswith('monthly_n'):
                    name = f'ITSG-{rel}_n{lmax}_{a:%Y-%m}.gfc' if rel == 'Grace2018' else \
                        f'ITSG_{rel}_n{lmax}_{a:%Y-%m}.gfc'
                    kind = 'GSM'
                else:
                    k = c.pick(*kinds)
                    name = c.pick('model', 'AOD1B_RL05', 'AOD1B_RL06')+f'_{k}_{a:%Y-%m}.gfc'
                    kind = kinds[k]
                path = f'GRAZ/{local[rel]}/{kind}/{name}'
                if path in seen:
                    continue
                seen.add(path)
                items.append((name, 60*(stamp(c)//60)))
                page = Page(blob(c), chunked=c.chance(.2))
                w.put(f'{root}/{sub}/{name}', page)
                m.file(path, page.body, items[-1][1], page)
            items += [(n, 60*(stamp(c)//60)) for n in ('README.txt', 'ITSG_errors.tar.gz',
                f'model_tide_{a:%Y-%m}.gfc' if items else 'x.gfc') if c.chance(.5)]
            c.rng.shuffle(items)
            http_folder(w, f'{root}/{sub}', [(n, int(t)) for n, t in items])
    m.run(w, 'itsg_graz_grace_sync', ['--release', *releases, '--lmax', lmax])
    for d in sorted({os.path.dirname(p) for p in m.want}):
        m.index(d, m.have(d))


@check.section('swarm', quick=40, thorough=500)
def swarm(c):
    """combined fields from Swarm, listed in pages"""
    w = web()
    host = 'https://swarm-diss.eo.esa.int'
    m = Mirror(c, c.scratch())
    m.options('list', 'clobber', 'checksum', 'log')
    n = c.int(0, 6)
    table, pages = [], {}
    for _ in range(n):
        a, b = span(c, 2014)
        name = f'SW_OPER_EGF_SHA_2__{a:%Y%m%dT000000}_{b:%Y%m%dT235959}_0{c.int(100, 999)}'+c.pick('.gfc', '.ZIP')
        if name in pages:
            continue
        pages[name] = Page(blob(c), chunked=c.chance(.2))
        t = stamp(c)
        table.append(dict(name=name, mtime=t))
        m.file(f'Swarm/RL01/GSM/{name}', pages[name].body, t, pages[name])
    # many others, so that the list has several pages
    for i in range(c.pick(0, 3, 499-len(table), 500-len(table), 501, 1000-len(table))):
        table.append(dict(name=f'SW_{i:04d}_MAG.txt', mtime=5))
    c.rng.shuffle(table)

    def respond(r):
        q = urllib.parse.parse_qs(r.query)
        if q.get('do') == ['list'] and q['file'] == ['swarm/Level2longterm/EGF']:
            k, at = int(q['maxfiles'][0]), int(q['pos'][0])
            return Page(json.dumps(dict(results=table[at:at+min(k, 500)])))
        if q.get('do') == ['download']:
            d, f = os.path.split(q['file'][0])
            return pages.get(f) if d == 'swarm/Level2longterm/EGF' else None
        return Page('welcome')
    w.put(host+'/', respond)
    w.pages['swarm-diss.eo.esa.int', ''] = respond
    m.run(w, 'esa_costg_swarm_sync')
    m.index('Swarm/RL01/GSM', [t['name'] for t in table if t['name'] in pages])


def ftp_put(w, path, page, mtime):
    page.mtime = mtime
    w.ftp[path] = page


@check.section('icgem', quick=40, thorough=500)
def icgem(c):
    """combined fields of COST-G"""
    w = web()
    m = Mirror(c, c.scratch())
    m.options('list', 'clobber', 'checksum', 'log')
    missions = list(c.rng.permutation(['Grace', 'Grace-FO', 'Swarm'])[:1 if m.log else c.int(1, 3)])
    files = []
    for mission in missions:
        for ds in dict(Grace=('GAC', 'GSM'), Swarm=('GAA', 'GAB', 'GAC', 'GAD',
                'GSM')).get(mission, ('GSM', )):
            for _ in range(c.int(0, 3)):
                a, b = span(c)
                if mission == 'Swarm':
                    d = f'GAX_products/{ds}' if ds != 'GSM' else '40x40'
                    name = f'{ds}_Swarm_{a:%Y_%m}_0{c.int(100, 999)}' if ds != 'GSM' else \
                        f'SW_OPER_EGF_SHA_2__{a:%Y%m%dT000000}_{b:%Y%m%dT235959}_0{c.int(100, 999)}'
                    name += c.pick('.gfc', '.ZIP')
                else:
                    d = {'Grace': 'GAX_products' if ds != 'GSM' else 'unfiltered',
                        'Grace-FO': ''}[mission]
                    name = (f'{ds}-2_{a:%Y%j}-{b:%Y%j}_{"GRAC" if mission == "Grace" else "GRFO"}'
                        f'_COSTG_B{"C" if ds != "GSM" else "F"}01_0100.gfc')
                files.append((mission, d, name, ds))
    files = list(dict.fromkeys(files))
    c.rng.shuffle(files)
    for mission, d, name, ds in files:
        page = Page(blob(c))
        ftp_put(w, '/'.join(x for x in ('/02_COST-G', mission, d, name) if x), page, stamp(c))
        m.file(f'{"Swarm" if mission == "Swarm" else "COSTG"}/RL01/{ds}/{name}',
            page.body, page.mtime, page)
    for mission in missions:
        if c.chance(.5):
            ftp_put(w, f'/02_COST-G/{mission}/README', Page('x'), 10**9)
            ftp_put(w, f'/02_COST-G/{mission}/unfiltered/GSM-2_notes.txt', Page('x'), 10**9)
            ftp_put(w, f'/02_COST-G/{mission}/GAX_products/GAD-2_2003001-2003031.gfc', Page('x'), 10**9)
    m.run(w, 'gfz_icgem_costg_ftp', ['--mission', *missions])
    for d in sorted({os.path.dirname(p) for p in m.want}):
        m.index(d, m.have(d))


@check.section('aod1b', quick=40, thorough=500)
def aod1b(c):
    """daily dealiasing fields, also packed by month"""
    w = web()
    m = Mirror(c, c.scratch())
    m.options('clobber', 'log')
    rel = c.pick('RL04', 'RL05', 'RL06')
    pack = c.chance(.5)
    years = sorted(set(c.int(2002, 2010) for _ in range(2)))
    chosen = [c.pick(years)] if c.chance(.5) else years
    months = sorted(set(c.int(1, 12) for _ in range(3)))
    wanted = [x for x in months if c.chance(.8)] or months[:1]
    sfx = 'tgz' if rel == 'RL06' else 'tar.gz'
    packs = {}
    days = [(y, mo, d) for y in years for mo in months for d in
        sorted(set(c.int(1, 28) for _ in range(c.int(0, 3))))]
    c.rng.shuffle(days)
    for y, mo, d in map(tuple, days):
        y, mo, d = int(y), int(mo), int(d)
        name = f'AOD1B_{y}-{mo:02d}-{d:02d}_X_{rel[2:]}.asc.gz'
        page = Page(blob(c))
        ftp_put(w, f'/grace/Level-1B/GFZ/AOD/{rel}/{y}/{name}', page, stamp(c))
        if y in chosen and mo in wanted:
            if pack:
                packs.setdefault((y, mo), {})[name] = page
            else:
                m.file(f'AOD1B/{rel}/{name}', page.body, page.mtime, page)
    if c.chance(.5):
        ftp_put(w, f'/grace/Level-1B/GFZ/AOD/{rel}/README', Page('x'), 10**9)
    old = {}
    for (y, mo), v in packs.items():
        path = f'AOD1B/{rel}/AOD1B_{y}-{mo:02d}_{rel[2:]}.{sfx}'
        if c.chance(.3):
            full = os.path.join(m.base, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'wb') as f:
                f.write(b'before')
            os.utime(full, (NOW, NOW))
            old[path] = b'before'
    argv = ['--release', rel, '--year', *chosen, '--month', *wanted]
    if not pack:
        m.run(w, 'gfz_isdc_dealiasing_ftp', argv)
        return
    # packed months: made once, or again when forced
    argv = m.argv+['--tar']+argv
    todo = {k: v for k, v in packs.items() if m.clobber or
        f'AOD1B/{rel}/AOD1B_{k[0]}-{k[1]:02d}_{rel[2:]}.{sfx}' not in old}
    bad = None
    if todo and c.chance(.35):
        bad = c.pick(list(todo))
        name = c.pick(list(todo[bad]))
        if len(todo[bad][name].body) > 1:
            todo[bad][name].fault = c.pick('truncate', 'reset')
        else:
            bad = None
    c.note(argv=[str(a) for a in argv[2:]], months=len(packs), updates=len(todo), fault=str(bad))

    def path(k):
        return f'AOD1B/{rel}/AOD1B_{k[0]}-{k[1]:02d}_{rel[2:]}.{sfx}'

    def read(k):
        full = os.path.join(m.base, path(k))
        return open(full, 'rb').read() if os.path.exists(full) else None
    with w.internet():
        if bad:
            try:
                failed = prog.attempt('gfz_isdc_dealiasing_ftp', argv, real=m.log).failed
            except Exception:
                failed = True
            c.ok(failed, 'fault-reported')
            c.eq(read(bad), old.get(path(bad)), 'kept-after-fault')
            for p in todo[bad].values():
                p.fault = None
        prog.run(c, 'gfz_isdc_dealiasing_ftp', argv, real=m.log)
    for k, v in packs.items():
        if k not in todo:
            c.eq(read(k), b'before', 'unchanged')
            continue
        with tarfile.open(os.path.join(m.base, path(k)), 'r:gz') as tar:
            got = [(t.name, int(t.mtime), tar.extractfile(t).read()) for t in tar.getmembers()]
        c.ok(got == [(n, v[n].mtime, v[n].body) for n in sorted(v)], 'packed',
            f'{path(k)} has {[(n, t, len(b)) for n, t, b in got]}')
        c.eq(os.stat(os.path.join(m.base, path(k))).st_mode & 0o777, m.mode, 'packed-mode')
    have = sorted(os.listdir(os.path.join(m.base, 'AOD1B', rel)))
    c.eq(have, sorted(os.path.basename(path(k)) for k in packs), 'no-others')


CODE = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')


def newest(names):
    """one file of a period, of the newest version"""
    best = {}
    for n in names:
        k = n.split('_')[1]
        v = int(re.search(r'_06(\d\d)', n)[1])
        if k not in best or v > best[k][0]:
            best[k] = v, n
    return sorted(n for _, n in best.values())


def month_of(c, mission):
    """a period without overlap with others of its calendar month"""
    return span(c, *(2004, 2010) if mission == 'grace' else (2019, 2020))


@check.section('isdc', quick=30, thorough=400)
def isdc(c):
    """fields and technical notes of the archive in Potsdam"""
    w = web()
    m = Mirror(c, c.scratch())
    m.options('list', 'clobber', 'checksum', 'log')
    centers = list(c.rng.permutation(['CSR', 'GFZ', 'JPL'])[:c.int(1, 2)])
    version = c.pick(('0', '1'), ('0', '3'), ('0', '0'))
    letters = c.chance(.4)
    put = []
    for n in ('TN-13_GEOC_CSR_RL06.txt', 'TN-13_GEOC_GFZ_RL06.1.txt', 'TN-13_GEOC_JPL_RL06.txt'):
        put.append(('grace-fo/DOCUMENTS/TECHNICAL_NOTES', n, f'geocenter/{n}'))
    put.append(('grace-fo/DOCUMENTS/TECHNICAL_NOTES', 'TN-14_C30_C20_SLR_GSFC.txt',
        'TN-14_C30_C20_GSFC_SLR.txt'))
    for n in ('05', '07', '11'):
        put.append(('grace/DOCUMENTS/TECHNICAL_NOTES', f'TN-{n}_C20_SLR_RL0{c.int(4, 6)}.txt',
            f'TN-{n}_C20_SLR.txt'))
    for n in ('TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz',
            'TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz',
            'TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz'):
        put.append(('grace/DOCUMENTS/TECHNICAL_NOTES', n, n))
    put = [p for p in put if c.chance(.4)]
    for mi, s in (('grace', 'GRACE'), ('grace-fo', 'GRACE_FO')):
        for y in sorted(set(c.int(2003, 2020) for _ in range(2))):
            n = f'{s}_SDS_NL_{c.int(0, 999):03d}.pdf'
            put.append((f'{mi}/DOCUMENTS/NEWSLETTER/{y}', n, f'newsletters/{n}' if letters else None))
    put += [('grace/DOCUMENTS/TECHNICAL_NOTES', n, None) for n in ('TN-01_x.pdf', 'TN-14_old.txt')]
    used = set()
    fields = {}
    for pr in ('CSR', 'GFZ', 'JPL'):
        for mi, code, v in (('grace', 'GRAC', version[0]), ('grace-fo', 'GRFO', version[1])):
            for ds in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM'):
                for _ in range(c.int(0, 2)):
                    a, b = month_of(c, mi)
                    for ver in sorted({int(v), c.pick(int(v), int(v)+1)}):
                        sol = 'BC01' if ds != 'GSM' else c.pick('BA01', 'BA01', 'BB01')
                        n = f'{ds}-2_{a:%Y%j}-{b:%Y%j}_{code}_{CODE[pr]}_{sol}_06{ver:02d}'
                        if (pr, ds, a) in used and ver == int(v):
                            continue
                        used.add((pr, ds, a))
                        use = pr in centers and not (pr == 'CSR' and ds in ('GAA', 'GAB'))
                        d = f'{mi}/Level-2/{pr}/RL06'+('' if v == '0' else '.'+v)
                        put.append((d, n+'.gz', f'{pr}/RL06/{ds}/{n}.gz' if use else None))
                        if use:
                            fields.setdefault(f'{pr}/RL06/{ds}', []).append(n+'.gz')
                            if c.chance(.2):
                                put.append((d, n+'.txt', f'{pr}/RL06/{ds}/{n}.txt'))
    put = list(dict.fromkeys(put))
    locals_ = [p[2] for p in put if p[2]]
    put = [p for i, p in enumerate(put) if p[2] is None or p[2] not in
        [q[2] for q in put[:i]]]
    c.rng.shuffle(put)
    for d, n, local in [(str(d), str(n), None if x is None else str(x)) for d, n, x in put]:
        page = Page(blob(c))
        ftp_put(w, f'/{d}/{n}', page, stamp(c))
        if local is not None:
            m.file(local, page.body, page.mtime, page)
    m.run(w, 'gfz_isdc_grace_ftp', ['--center', *centers, '--version', *version]
        +['--newsletters']*letters)
    for pr in centers:
        for ds in ('GAC', 'GAD', 'GSM') if pr == 'CSR' else ('GAA', 'GAB', 'GAC', 'GAD', 'GSM'):
            d = f'{pr}/RL06/{ds}'
            names = m.have(d, lambda n: n.endswith('.gz') and not '_BB01_' in n)
            m.index(d, sorted(newest([n for n in names if '_GRAC_' in n])
                +newest([n for n in names if '_GRFO_' in n])))


@check.section('cnes', quick=30, thorough=400)
def cnes(c):
    """fields of Toulouse, unpacked from tar files"""
    w = web()
    host = 'http://gravitegrace.get.obs-mip.fr'
    w.put(host, Page('ok'))
    w.put(host+'/', Page('ok'))
    m = Mirror(c, c.scratch())
    base = m.base
    m.options('clobber', 'log')
    rel = c.pick('RL01', 'RL02', 'RL03', 'RL04', 'RL05')
    layout = dict(
        RL01=[('RL01/variable/archives', 'GRGS.SH_models.GRACEFORMAT.RL01.tar.gz', ['GSM']),
            ('RL01/variable/archives', 'GRGS.dealiasing.RL01.tar.gz', ['GAC'])],
        RL02=[('RL02/variable/archives', 'GRGS.SH_models.GRACEFORMAT.all.tar.gz', ['GSM']),
            ('RL02/variable/archives', 'GRGS.dealiasing.GRACEFORMAT.all.tar.gz', ['GAA', 'GAB'])],
        RL03=[('RL03-v3/archives', 'CNES-GRGS.RL03-v3.monthly.coeff.tar.gz', ['GSM']),
            ('RL03/variable/archives', 'GRGS.RL03.dealiasing.monthly.tar.gz', ['GAA', 'GAB'])],
        RL04=[('RL04-v1/archives', 'CNES.RL04-v1.monthly.NEW_IERS2010_MEAN_POLE_CONVENTION.tar.gz', ['GSM'])],
        RL05=[('RL05/archives', 'CNES-GRGS.RL05.GRACE.monthly.tar.gz', ['GSM']),
            ('RL05/archives', 'CNES-GRGS.RL05.GRACE-FO.monthly.tar.gz', ['GSM']),
            ('RL05/archives', 'CNES-GRGS.RL05.monthly.dealiasing.tar.gz', ['GAA', 'GAB'])])[rel]
    members, stale, tars = {}, {}, {}
    folder = f'CNES/{rel}'
    for remote, tar, sets in layout:
        buf = io.BytesIO()
        with tarfile.open(fileobj=buf, mode='w:gz') as f:
            for ds in sets+['README']:
                for _ in range(c.int(0, 3)):
                    a, b = span(c)
                    name = f'{ds}-2_{a:%Y%j}-{b:%Y%j}_0001_GRGS_{c.pick("TSVD", "CHOL")}_{rel[2:]}00'
                    path = (ds, name)
                    if path in members:
                        continue
                    body = c.rng.bytes(c.int(0, 3000))
                    info = tarfile.TarInfo(c.pick('', 'data/', './')+name+c.pick('', '.txt'))
                    info.size, info.mtime = len(body), stamp(c)
                    f.addfile(info, io.BytesIO(body))
                    members[path] = (body, info.mtime)
        t = stamp(c)
        page = Page(buf.getvalue(), headers={'Last-Modified': time.strftime(
            '%a, %d %b %Y %H:%M:%S GMT', time.gmtime(t))})
        w.put(f'{host}/grgs.obs-mip.fr/data/{remote}/{tar}', page)
        tars[tar] = page, t
        have = c.pick(None, None, page.body, b'before')
        if have is not None:
            os.makedirs(os.path.join(base, folder), exist_ok=True)
            with open(os.path.join(base, folder, tar), 'wb') as f:
                f.write(have)
            tars[tar] += (have, )
    members = {k: v for k, v in members.items() if k[0] != 'README'}
    for (ds, name), (body, t) in members.items():
        state = c.pick('absent', 'absent', 'older', 'same', 'newer')
        if state == 'absent':
            continue
        d = os.path.join(base, folder, ds)
        os.makedirs(d, exist_ok=True)
        mt = t+dict(older=-c.int(1, 9999), same=0, newer=c.int(1, 9999))[state]
        with open(os.path.join(d, name+'.gz'), 'wb') as f:
            with gzip.GzipFile('', 'wb', 9, f, mt) as z:
                z.write(b'old')
        if state != 'older' and not m.clobber:
            stale[ds, name] = mt
    bad = None
    if c.chance(.35):
        tar = c.pick([k for k, v in tars.items() if v[2:] != (v[0].body, )] or [None])
        if tar is not None:
            bad = tar
            tars[tar][0].fault = c.pick('truncate', 'reset')
    c.note(rel=rel, members=len(members), stale=len(stale), fault=bad,
        argv=[str(a) for a in m.argv[2:]])
    argv = m.argv+['--release', rel]

    def local(tar):
        p = os.path.join(base, folder, tar)
        return open(p, 'rb').read() if os.path.exists(p) else None
    with w.internet():
        if bad:
            try:
                failed = prog.attempt('cnes_grace_sync', argv, real=m.log).failed
            except Exception:
                failed = True
            c.ok(failed, 'fault-reported')
            c.eq(local(bad) == (tars[bad][2] if len(tars[bad]) > 2 else None), True,
                'kept-after-fault')
            tars[bad][0].fault = None
        prog.run(c, 'cnes_grace_sync', argv, real=m.log)
    for tar, v in tars.items():
        c.ok(local(tar) == v[0].body, 'archive-bytes', tar)
        c.eq(int(os.stat(os.path.join(base, folder, tar)).st_mtime), v[1], 'archive-time')
    for (ds, name), (body, t) in members.items():
        p = os.path.join(base, folder, ds, name+'.gz')
        c.ok(os.path.exists(p), 'unpacked', name)
        with open(p, 'rb') as f:
            raw = f.read()
        z, = struct.unpack('<I', raw[4:8])
        if (ds, name) in stale:
            c.eq((gzip.decompress(raw), z), (b'old', stale[ds, name]), 'unpacked-kept')
        else:
            c.ok(gzip.decompress(raw) == body, 'unpacked-bytes', name)
            c.eq((z, int(os.stat(p).st_mtime)), (t, t), 'unpacked-time')
            c.eq(os.stat(p).st_mode & 0o777, m.mode, 'unpacked-mode')
    for ds in sorted({s for v in layout for s in v[2]}):
        m.index(f'{folder}/{ds}', sorted(n+'.gz' for s, n in members if s == ds))
    if m.log:
        c.eq(len([n for n in os.listdir(base) if n.endswith('.log')]), 1, 'log')


class Body:
    """a stream of an object; raises if it ends early, as the real one"""
    def __init__(self, page):
        self.data = io.BytesIO(page.body[:len(page.body)//2] if page.fault else page.body)
        self.fault = page.fault

    def read(self, n=None):
        out = self.data.read() if n is None else self.data.read(n)
        if self.fault and (n is None or len(out) < n):
            raise IOError('incomplete read')
        return out


class Client:
    """objects of the buckets of the archive"""
    def __init__(self, w):
        self.w = w

    def list_objects(self, Bucket, Prefix):
        if not any(h == Bucket and p.startswith('/'+Prefix) for h, p in self.w.pages):
            return {}
        return dict(Contents=[])

    def get_object(self, Bucket, Key):
        return dict(Body=Body(self.w.pages[Bucket, '/'+Key]))


@check.section('podaac', quick=30, thorough=400)
def podaac(c):
    """fields of the catalogue at NASA"""
    w = web()
    m = Mirror(c, c.scratch())
    m.options('clobber', 'log')
    items = N02.catalogue(c)
    if c.chance(.5):
        # the first and last days of the mission
        for y in (2002, 2017):
            t = datetime.datetime(y, 4, 1)+c.int(0, 60)*N02.DAY
            items.append(('GRACE_AOD1B_GRAV_GFZ_RL06', f'AOD1B_{t:%Y-%m-%d}_X_06', t,
                t+N02.DAY, c.int(10**9, 16*10**8)))
        items.sort(key=lambda v: (v[2], v[1]))
    # one file for each name
    items = list({v[:2]: v for v in items}.values())
    size = c.pick(3, 5, 2000)
    N02.serve(c, w, items, 'POCLOUD', size, c.pick('always', 'more', 'nothing'), set())
    centers = list(c.rng.permutation(['CSR', 'GFZ', 'JPL'])[:c.int(1, 2)])
    version = c.pick(('0', '3'), ('0', '0'), ('0', '3'))
    pack, level1 = c.chance(.4), c.chance(.4)
    end = c.pick('data', 'data', 's3')
    tn13 = {pr: c.pick(True, True, False) and end == 'data' for pr in CODE}
    tn14 = c.chance(.7) and end == 'data'
    arc = 'https://archive.podaac.earthdata.nasa.gov'

    def respond(r):
        q = urllib.parse.parse_qs(r.query)
        out = []
        for pr in CODE:
            name = f'GRACEFO_L2_{pr}_MONTHLY_006'
            for n in q.get('short_name', []):
                if not n.startswith(name):
                    continue
                links = [f'https://doc.org/{n}/handbook.pdf']
                if tn13[pr]:
                    links.append(f'{arc}/docs/TN-13_GEOC_{pr}_RL06.{n[-1]}.txt')
                if tn14:
                    links.append(f'{arc}/docs/TN-14_C30_C20_GSFC_SLR.txt')
                out.append(dict(title=n, links=[dict(rel=N02.DATA.format('documentation'),
                    href=h) for h in links]))
        return Page(json.dumps(dict(feed=dict(entry=out))))
    w.put('https://cmr.earthdata.nasa.gov/search/collections.json', respond)
    fo = sorted(set(version))
    start = time.time()
    docs = {}
    for pr in centers:
        for v in fo:
            if tn13[pr]:
                docs[f'geocenter/TN-13_GEOC_{pr}_RL06.{v}.txt'] = f'TN-13_GEOC_{pr}_RL06.{v}.txt'
            if tn14:
                docs['TN-14_C30_C20_GSFC_SLR.txt'] = 'TN-14_C30_C20_GSFC_SLR.txt'
    for local, n in docs.items():
        page = Page(blob(c))
        w.put(f'{arc}/docs/{n}', page)
        m.file(local, page.body, int(start), page)
        m.want[local] = (page.body, None)
        # the time of documents is that of the run
        if not any(p == local for p, _ in m.plan) and m.old[local] and m.old[local][1] < start-3:
            m.plan.append((local, page))
        if m.old[local] and not m.clobber and m.old[local][1] >= start-3:
            os.remove(os.path.join(m.base, local))
            m.old[local] = None
            if not any(p == local for p, _ in m.plan):
                m.plan.append((local, page))
    gz = {}
    for coll, title, _s, _e, t in items:
        page = Page(blob(c), chunked=c.chance(.2))
        w.put(N02.url(end, coll, title), page)
        if title.startswith('AOD1B'):
            if level1:
                m.file(f'AOD1B/RL06/{title}', page.body, t, page)
            continue
        pr = [k for k, v in CODE.items() if f'_{v}_' in title]
        if not pr or pr[0] not in centers or '_BB01_' in title:
            continue
        v = version[0] if '_GRAC_' in title else version[1]
        if title[-1] != v:
            continue
        local = f'{pr[0]}/RL06/{title[:3]}/{title}'+'.gz'*pack
        m.file(local, page.body, t, page)
        if pack:
            gz[local] = page.body
        if c.chance(.3):
            # a file of another version from an earlier run
            other = f'{local[:-3] if pack else local}'[:-2] + \
                f'{c.pick(*[x for x in range(6) if x != int(v)]):02d}'+'.gz'*pack
            full = os.path.join(m.base, other)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, 'wb') as fid:
                fid.write(b'other version')
            os.utime(full, (NOW, t))
            m.want[other] = m.old[other] = (b'other version', t)
    if pack:
        for p in gz:
            m.want[p] = (None, m.want[p][1])
        plain = m.new

        def new(path, key):
            if path in gz:
                full = os.path.join(m.base, path)
                c.ok(os.path.exists(full), key+'-stored', path)
                with open(full, 'rb') as f:
                    raw = f.read()
                c.ok(gzip.decompress(raw) == gz[path], key+'-bytes', path)
                c.eq(struct.unpack('<I', raw[4:8])[0], m.want[path][1], key+'-packed-time')
                m.want[path] = (raw, m.want[path][1])
            plain(path, key)
        m.new = new
    user, word = 'someone', 'secret'
    N01_home = N01.home(c)
    w.put(N01.KEYS, Page('{}'))
    utilities = prog.load('podaac_cumulus').gravtk.utilities
    keep, utilities.s3_client = utilities.s3_client, lambda *a, **kw: Client(w)
    with contextlib.ExitStack() as stack:
        stack.enter_context(N01_home)
        stack.callback(setattr, utilities, 's3_client', keep)
        m.run(w, 'podaac_cumulus', ['--endpoint', end, '--user', user, '--password', word,
            '--center', *centers, '--release', 'RL06', '--version', *version]
            +['--gzip']*pack+['--aod1b']*level1,
            ignore=['^home/'])
    for pr in centers:
        for ds in ('GAC', 'GAD', 'GSM') if pr == 'CSR' else ('GAA', 'GAB', 'GAC', 'GAD', 'GSM'):
            d = f'{pr}/RL06/{ds}'
            names = m.have(d)
            m.index(d, sorted(newest([n for n in names if '_GRAC_' in n])
                +newest([n for n in names if '_GRFO_' in n])))


if __name__ == '__main__':
    check.main()
