"""N02: catalogue queries find exactly the requested granules."""
import datetime
import fnmatch
import json
import time
import urllib.parse
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv.web import Web, Page

check = Check('N02', 'each case fills a catalogue server (on the loopback '
    'interface) with granules of all missions, centers, products, solutions '
    'and versions; it filters, sorts and pages as the real one, and the '
    'returned names, addresses and times are compared with the catalogue')
U = g.utilities
WEB = None
DATA = 'http://esipfed.org/ns/fedsearch/1.1/{}#'
DAY = datetime.timedelta(days=1)


def web():
    global WEB
    if WEB is None:
        WEB = Web()
    WEB.clear()
    return WEB


CENTERS = dict(CSR='UTCSR', GFZ='GFZOP', JPL='JPLEM')


def catalogue(c, copies=False):
    """granules: (collection, title, start, end, updated seconds)"""
    out = []
    for center, code in CENTERS.items():
        for mission, m, year in (('grace', 'GRAC', 2004), ('grace-fo', 'GRFO', 2019)):
            for k in range(c.int(1, 4)):
                s = datetime.datetime(year, 1, 1)+c.int(0, 300)*DAY
                e = s+c.pick(29, 30, 27)*DAY
                for p in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM'):
                    if center == 'CSR' and p in ('GAA', 'GAB'):
                        continue
                    for ver in ('0', '3') if mission == 'grace-fo' else ('0',):
                        for sol in ('BA01', 'BB01') if p == 'GSM' else ('BC01',):
                            title = f'{p}-2_{s:%Y%j}-{e:%Y%j}_{m}_{code}_{sol}_060{ver}'
                            coll = (f'GRACE_{p}_L2_GRAV_{center}_RL06' if mission == 'grace'
                                else f'GRACEFO_L2_{center}_MONTHLY_006{ver}')
                            out.append((coll, title, s, e, c.int(10**9, 16*10**8)))
    for k in range(c.int(0, 3)):
        s = datetime.datetime(2005, 1, 1)+c.int(0, 300)*DAY
        out.append(('GRACE_AOD1B_GRAV_GFZ_RL06', f'AOD1B_{s:%Y-%m-%d}_X_06', s, s+DAY, c.int(10**9, 16*10**8)))
        out.append(('GRACE_L1B_GRAV_JPL_RL02', f'grace_1B_{s:%Y-%m-%d}_02', s, s+DAY, c.int(10**9, 16*10**8)))
        s = datetime.datetime(2019, 1, 1)+c.int(0, 300)*DAY
        for l in ('1A', '1B'):
            out.append((f'GRACEFO_L{l}_ASCII_GRAV_JPL_RL04', f'gracefo_{l}_{s:%Y-%m-%d}_RL04',
                s, s+DAY, c.int(10**9, 16*10**8)))
    out = sorted(set(out), key=lambda v: (v[2], v[1]))
    if not copies:
        return out
    # granules that are listed more than once (at different addresses)
    again = c.pick(0, .3, .8)
    return [(*v[:4], v[4]+100*k, k) for v in out for k in
        range(1+(c.int(1, 2) if again and c.chance(again) else 0))]


def url(kind, coll, title, copy=0):
    host = 's3://podaac-ops-cumulus-protected' if kind == 's3' else \
        'https://archive.podaac.earthdata.nasa.gov'
    return f'{host}/{coll}/'+f'copy{copy}/'*(copy > 0)+title


def serve(c, w, items, provider, size, last, lacking):
    """the search interface of the catalogue"""
    seen = []

    def respond(r):
        q = urllib.parse.parse_qs(r.query, keep_blank_values=True)
        seen.append((q, r.headers))
        hits = items if q.get('provider') == [provider] else []
        hits = [v for v in hits if v[0] in q.get('short_name', [])]
        if q.get('temporal', [','])[0] != ',':
            a, _, b = q['temporal'][0].partition(',')
            p = datetime.datetime.fromisoformat
            hits = [v for v in hits if (not a or v[3] >= p(a)) and (not b or v[2] <= p(b))]
        if q.get('readable_granule_name[]'):
            assert q['options[readable_granule_name][pattern]'] == ['true']
            hits = [v for v in hits if fnmatch.fnmatchcase(v[1], q['readable_granule_name[]'][0])]
        n = min(size, int(q.get('page_size', ['10'])[0]))
        at = int(r.headers.get('cmr-search-after', 'x0')[1:])
        page = hits[at:at+n]
        head = {'CMR-Hits': str(len(hits))}
        if page and (at+n < len(hits) or last == 'always'):
            head[c.pick('CMR-Search-After', 'cmr-search-after')] = f'x{at+n}'
        entry = []
        for v in page:
            links = [dict(rel=DATA.format('browse'), href='https://x/'+v[1]+'.png')]
            for k in ('s3', 'data'):
                if (k, v[1]) not in lacking:
                    links.append(dict(rel=DATA.format(k), href=url(k, v[0], v[1], *v[5:])))
            links += [dict(rel=DATA.format('data'), href='https://mirror/'+v[1])] \
                if ('data', v[1]) not in lacking else []
            entry.append(dict(title=v[1], links=links, updated=time.strftime(
                '%Y-%m-%dT%H:%M:%S.250Z', time.gmtime(v[4]))))
        if not page and last == 'nothing':
            return Page('{}', headers=head)
        return Page(json.dumps(dict(feed=dict(entry=entry))), headers=head)
    w.put('https://cmr.earthdata.nasa.gov/search/granules.json', respond)
    return seen


@check.section('granules', quick=150, thorough=2500)
def granules(c):
    w = web()
    items = catalogue(c, copies=True)
    provider = c.pick('POCLOUD', 'POCLOUD', 'PODAAC')
    size = c.pick(1, 2, 3, 5, 2000)
    last = c.pick('always', 'more', 'nothing')
    lacking = {(c.pick('s3', 'data'), v[1]) for v in items if c.chance(.1)} if c.chance(.3) else set()
    if size < 3:
        lacking = set()
    seen = serve(c, w, items, provider, size, last, lacking)
    level = c.pick('L2', 'L2', 'L2', 'L1B', 'L1A')
    mission = c.pick('grace', 'grace-fo')
    center, sol, ver, product = c.pick(*CENTERS), 'BA01', '0', None
    kw = {}
    if level == 'L2':
        rel = 'RL06'
        product = c.pick('GSM', 'GSM', 'GAC', 'GAD', 'GAA', 'GAB')
        if c.chance(.5):
            kw['solution'] = sol = c.pick('BA01', 'BB01')
        if mission == 'grace-fo' and c.chance(.5):
            kw['version'] = ver = c.pick('0', '3')
        m = dict(zip(('grace', 'grace-fo'), ('GRAC', 'GRFO')))[mission]
        keep = lambda v: (v[1].startswith(product+'-2_') and f'_{m}_{CENTERS[center]}_' in v[1]
            and v[1].endswith(f'_{sol if product == "GSM" else "BC01"}_060{ver}'))
    elif mission == 'grace' and level == 'L1B' and c.chance(.5):
        center, rel, product = 'GFZ', 'RL06', 'AOD1B'
        keep = lambda v: v[1].startswith('AOD1B_')
    else:
        center = 'JPL'
        if mission == 'grace':
            level = 'L1B'
        rel = 'RL02' if mission == 'grace' else 'RL04'
        keep = (lambda v: v[1].startswith('grace_1B')) if mission == 'grace' else \
            (lambda v: v[1].startswith(f'gracefo_{level[1:]}'))
    if level != 'L2' or c.chance(.5):
        kw['level'] = level
    a = b = None
    y = 2004 if mission == 'grace' else 2019
    if c.chance(.4):
        a = datetime.datetime(y, 1, 1)+c.int(-100, 300)*DAY
        kw['start_date'] = c.pick(f'{a:%Y-%m-%d}', f'{a:%Y-%m-%dT%H:%M:%S}', f'{a:%d %b %Y}')
    if c.chance(.4):
        b = datetime.datetime(y, 1, 1)+c.int(0, 400)*DAY
        kw['end_date'] = c.pick(f'{b:%Y-%m-%d}', f'{b:%B %d, %Y}')
    end = 'data'
    if c.chance(.4):
        kw['endpoint'] = end = c.pick('data', 's3')
    if provider != 'POCLOUD' or c.chance(.3):
        kw['provider'] = provider
    want = [v for v in items if keep(v) and (not a or v[3] >= a) and (not b or v[2] <= b)
        and (end, v[1]) not in lacking]
    c.note(mission=mission, center=center, release=rel, product=product, kw=kw,
        page=size, last=last, wanted=len(want), lacking=len(lacking))
    with w.internet():
        names, urls, times = U.cmr(mission=mission, center=center, release=rel,
            product=product, **kw)
    c.eq(list(names), [v[1] for v in want], 'names')
    c.eq(list(urls), [url(end, v[0], v[1], *v[5:]) for v in want], 'addresses')
    c.eq(list(times), [v[4] for v in want], 'times')
    for q, _ in seen:
        c.eq(q['sort_key[]'], ['start_date', 'producer_granule_id'], 'sorted')


@check.section('unknown', quick=6, thorough=30)
def unknown(c):
    """collections that do not exist are refused before any request"""
    w = web()
    serve(c, w, catalogue(c, copies=True), 'POCLOUD', 10, 'more', set())
    bad = c.pick(dict(mission='grace', center='CNES', release='RL06'),
        dict(mission='grace', center='CSR', release='RL99'),
        dict(mission='moon', center='CSR', release='RL06'), dict(),
        dict(mission='grace', center='CSR', release='RL06', level='L9'))
    with w.internet():
        c.raises(Exception, 'refused', U.cmr, product='GSM', **bad)
        c.raises(Exception, 'refused-metadata', U.cmr_metadata, **bad)
    c.eq(len(w.log), 0, 'requests')


@check.section('collections', quick=40, thorough=400)
def collections(c):
    """links of the collections of a release"""
    w = web()
    mission, center = c.pick('grace', 'grace-fo'), c.pick(*CENTERS)
    prods = ['GAC', 'GAD', 'GSM'] if center == 'CSR' else ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
    names = [f'GRACE_{p}_L2_GRAV_{center}_RL06' for p in prods] if mission == 'grace' else \
        [f'GRACEFO_L2_{center}_MONTHLY_0060']
    end = c.pick('data', 's3', 'documentation')
    every = names+['GRACE_GSM_L2_GRAV_CSR_RL05', 'OTHER']
    docs = {n: [(k, f'https://{k}.org/{n}/{i}.{c.pick("pdf", "txt")}') for i in range(c.int(0, 3))
        for k in ('data', 's3', 'documentation')] for n in every}

    def respond(r):
        q = urllib.parse.parse_qs(r.query)
        hits = [n for n in every if n in q.get('short_name', [])]
        if q.get('provider') != ['POCLOUD']:
            hits = []
        return Page(json.dumps(dict(feed=dict(entry=[dict(title=n, links=[dict(
            rel=DATA.format(k), href=h) for k, h in docs[n]]) for n in hits]))))
    w.put('https://cmr.earthdata.nasa.gov/search/collections.json', respond)
    pat = c.pick('', r'\.pdf$', 'GSM')
    kw = {} if not pat else dict(pattern=pat)
    c.note(mission=mission, center=center, endpoint=end, pattern=pat)
    with w.internet():
        r = U.cmr_metadata(mission=mission, center=center, release='RL06', endpoint=end, **kw)
        want = [h for n in every if n in names for k, h in docs[n] if k == end]
        want = [h for h in want if not pat or (h.endswith('pdf') if 'pdf' in pat else 'GSM' in h)]
        c.eq(list(r), want, 'links')
        w.put('https://cmr.earthdata.nasa.gov/search/collections.json', Page('{}'))
        c.eq(list(U.cmr_metadata(mission=mission, center=center, release='RL06')), [], 'none')
