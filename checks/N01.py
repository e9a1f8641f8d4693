"""N01: downloads, listings and logins, against servers of this process."""
import base64
import builtins
import contextlib
import getpass
import hashlib
import io
import json
import os
import pathlib
import time
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv.web import Web, Page

check = Check('N01', 'each case fills web and ftp servers on the loopback '
    'interface with files and faults (missing, truncated, stalled, reset, '
    'denied), runs a retrieval with local files in any state and compares '
    'buffers, files, times and the requests that the servers saw')
U = g.utilities
WEB = None
STAMP = 10**9


def web():
    global WEB
    if WEB is None:
        WEB = Web()
    WEB.clear()
    return WEB


def blob(c):
    return c.rng.bytes(c.pick(0, 1, c.int(2, 300), c.int(300, 20000), 16384))


def md5(b):
    return hashlib.md5(b).hexdigest()


class Local:
    """a local file before a retrieval: absent, equal or other content"""
    def __init__(self, c, body, sub=True):
        d = c.scratch()
        if sub and c.chance(.3):
            d = os.path.join(d, 'new', 'er')
        self.path = os.path.join(d, c.pick('a.gz', 'file.txt', 'x'))
        self.state = c.pick('absent', 'equal', 'other', 'longer')
        self.old = {'absent': None, 'equal': body, 'other': b'other '+body[:7],
            'longer': body+b'tail'}[self.state]
        if os.path.exists(self.path):
            os.remove(self.path)
        if self.old is not None:
            os.makedirs(d, exist_ok=True)
            with open(self.path, 'wb') as h:
                h.write(self.old)
            os.chmod(self.path, 0o640)
            os.utime(self.path, (STAMP, STAMP))
        self.arg = c.pick(str, pathlib.Path)(self.path)

    def unchanged(self, c, key):
        if self.old is None:
            c.ok(not os.path.exists(self.path), key, f'{key}: the file was created')
        else:
            st = os.stat(self.path)
            c.eq(pathlib.Path(self.path).read_bytes(), self.old, key)
            c.eq((int(st.st_mtime), st.st_mode & 0o777), (STAMP, 0o640), key+'-stat')

    def now(self, c, body, mode, key):
        c.eq(pathlib.Path(self.path).read_bytes(), body, key)
        c.eq(os.stat(self.path).st_mode & 0o777, mode, key+'-mode')


def buffer(c, r, body, name):
    c.ok(isinstance(r, io.BytesIO), 'buffer')
    c.eq(r.tell(), 0, 'rewound')
    c.eq(r.getvalue(), body, 'bytes')
    c.eq(r.filename, name, 'name')


def address(c, scheme, host, *parts):
    """a url as text or in parts"""
    url = scheme+'://'+'/'.join([host, *parts])
    return c.pick(url, list(U.url_split(url)), U.url_split(url))


def retrieve(c, fn, scheme, extra):
    w = web()
    body = blob(c)
    parts = [c.pick('pub', 'RL06.1', 'data'), c.pick('f.gz', 'C20.txt')]
    host = c.pick('www.example.org', 'download.csr.utexas.edu')
    chunked = c.chance(.2)
    page = Page(body, chunked=chunked, length=c.chance(.8))
    moved = c.chance(.2)
    w.put(f'{scheme}://{host}/'+'/'.join(parts), page)
    if moved:
        w.put(f'{scheme}://{host}/'+'/'.join(parts), Page('', 302,
            {'Location': f'{scheme}://other.org/there'}))
        w.put(f'{scheme}://other.org/there', page)
    L = Local(c, body)
    kw = dict(extra)
    use = c.chance(.85)
    if use:
        kw['local'] = L.arg
    hash = c.pick('right', 'none', 'md5', 'md5')
    if hash == 'right':
        kw['hash'] = md5(body)
    elif hash == 'md5':
        kw['hash'] = U.get_hash(L.path)
    mode = 0o775
    if c.chance(.5):
        kw['mode'] = mode = c.pick(0o644, 0o600, 0o755)
    if c.chance(.5):
        kw['chunk'] = c.pick(1, 7, 1000, 10**6) if len(body) < 2000 else c.pick(1000, 10**6)
    if c.chance(.5):
        kw['timeout'] = 20
    c.note(size=len(body), local=L.state if use else None, hash=hash, scheme=scheme,
        chunked=chunked, moved=moved)
    with w.internet():
        r = fn(address(c, scheme, host, *parts), **kw)
    buffer(c, r, body, parts[-1])
    if not use or kw.get('hash') == md5(body):
        L.unchanged(c, 'kept')
    else:
        L.now(c, body, mode, 'stored')
    return w


def failing(c, fn, scheme, extra):
    w = web()
    body = blob(c)+b'more than nothing'
    fault = c.cycle('missing', 'error', 'truncate', 'reset', 'stall', 'denied',
        'chunks', 'unreachable')
    if c.quick and fault == 'stall' and c.index > 8:
        fault = 'truncate'
    page = {'missing': Page('no', 404), 'error': Page('no', 500), 'denied': Page('no', 401),
        'truncate': Page(body, fault='truncate'), 'reset': Page(body, fault='reset'),
        'stall': Page(body, fault='stall'), 'unreachable': Page(body),
        'chunks': Page(body, fault='truncate', chunked=True)}[fault]
    cut = c.pick(0, 1, len(body)-1, c.int(0, len(body)-1))
    w.cut = lambda n: min(cut, n-1)
    url = f'{scheme}://www.example.org/pub/f.gz'
    w.put(url, page)
    if fault == 'unreachable':
        w.unreachable.add('www.example.org')
    L = Local(c, body)
    c.note(fault=fault, cut=cut, size=len(body), local=L.state, scheme=scheme)
    with w.internet():
        c.raises(Exception, 'reported-'+fault, fn, url, local=L.arg, hash=U.get_hash(L.path),
            timeout=.3 if fault == 'stall' else 20, **extra)
    w.cut = lambda n: n//2
    L.unchanged(c, 'kept-'+fault)


@check.section('http', quick=60, thorough=1000)
def http(c):
    """the buffer and the local file are the remote file"""
    retrieve(c, U.from_http, c.pick('http', 'https'), {})


@check.section('http-faults', quick=40, thorough=400)
def http_faults(c):
    """a failed retrieval is reported and leaves the local file alone"""
    failing(c, U.from_http, c.pick('http', 'https'), {})


@contextlib.contextmanager
def home(c, **netrc):
    """another home directory (of a .netrc file)"""
    d = os.path.join(c.scratch(), 'home')
    os.makedirs(d, exist_ok=True)
    if netrc:
        f = os.path.join(d, '.netrc')
        with open(f, 'w') as h:
            for m, (u, p) in netrc['machines'].items():
                h.write(f'machine {m} login {u} password {p}\n')
        os.chmod(f, 0o600)
    keep = {k: os.environ.get(k) for k in ('HOME', 'EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD')}
    os.environ['HOME'] = d
    os.environ.pop('EARTHDATA_USERNAME', None)
    os.environ.pop('EARTHDATA_PASSWORD', None)
    try:
        yield d
    finally:
        for k, v in keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def basic(user, word):
    return 'Basic '+base64.b64encode(f'{user}:{word}'.encode()).decode()


KEYS = 'https://archive.podaac.earthdata.nasa.gov/s3credentials'


def guard(user, word, page):
    """only those who know the password are served"""
    def respond(r):
        return page if r.headers.get('authorization') == basic(user, word) else Page('no', 401)
    return respond


def person(c):
    return (c.pick('someone', 'a.b', 'user1'), c.pick('secret', 'p:w', 'x=&%', '12345'))


@check.section('drive', quick=40, thorough=500)
def drive(c):
    """authenticated retrieval: with credentials, from .netrc, or denied"""
    retrieve(c, U.from_drive, 'https', dict(build=False))
    failing(c, U.from_drive, 'https', dict(build=False))
    w = web()
    user, word = person(c)
    body = blob(c)
    url = 'https://podaac-tools.jpl.nasa.gov/drive/files/f.gz'
    w.put(url, guard(user, word, Page(body)))
    w.put(KEYS, guard(user, word, Page('{}')))
    L = Local(c, body)
    way = c.cycle('given', 'netrc', 'wrong')
    c.note(way=way)
    machine = {'podaac-tools.jpl.nasa.gov': (user, word)} if ':' not in word else {}
    if way == 'netrc' and machine:
        with home(c, machines=machine), w.internet():
            r = U.from_drive(url, local=L.arg)
    elif way == 'wrong':
        with home(c), w.internet():
            c.raises(Exception, 'denied', U.from_drive, url, username=user,
                password=word+'x', local=L.arg)
        L.unchanged(c, 'kept-denied')
        return
    else:
        with home(c), w.internet():
            r = U.from_drive(url, username=user, password=word, local=L.arg)
    buffer(c, r, body, 'f.gz')
    L.now(c, body, 0o775, 'stored')


def entries(c):
    names = ['GSM-2_2004001-2004031_GRAC_UTCSR_BA01_0600.gz', 'GAC-2_x.gz', 'a.txt',
        'README', 'sub/', '2004/', '2018/', 'b.nc', 'z.h5', 'C20_RL06.txt']
    c.rng.shuffle(names)
    return [(n, 60*int(c.rng.integers(10**7, 3*10**7))) for n in names[:c.int(0, len(names))]]


def expected(items, pattern, sort):
    import re
    items = [v for v in items if not pattern or re.search(pattern, v[0])]
    return sorted(items, key=lambda v: v[0]) if sort else items


@check.section('lists', quick=50, thorough=600)
def lists(c):
    """names of directories with their own times"""
    w = web()
    items = entries(c)
    pattern = c.pick('', '', r'\.gz$', r'\d{4}', 'GSM|README', 'nothing')
    sort = c.chance(.5)
    kw = {}
    if pattern:
        kw['pattern'] = pattern
    if sort:
        kw['sort'] = True
    kind = c.cycle('http', 'drive', 'gsfc', 'icgem')
    c.note(kind=kind, items=items, kw=kw)
    stamp = lambda s, f: time.strftime(f, time.gmtime(s))
    want = expected(items, pattern, sort)
    if kind == 'http':
        fmt = c.pick('%Y-%m-%d %H:%M', '%d-%b-%Y %H:%M')
        if fmt != '%Y-%m-%d %H:%M':
            kw['format'] = fmt
        rows = ['<tr><th valign="top"></th><th><a href="?C=N;O=D">Name</a></th></tr>']
        parent = c.chance(.7)
        if parent:
            rows.append('<tr><td valign="top"><img src="/i"></td><td><a href="/pub/">Parent '
                'Directory</a></td><td>&nbsp;</td><td align="right">  - </td><td>&nbsp;</td></tr>')
        rows += [f'<tr><td valign="top"><img src="/i.gif"></td><td><a href="{n}">{n[:12]}..&gt;'
            f'</a></td><td align="right">{stamp(t, fmt)}  </td><td align="right">1.2K</td>'
            '<td>&nbsp;</td></tr>' for n, t in items]
        w.put('https://example.org/pub/dir', Page('<html><body><table>'+'\n'.join(rows)
            +'</table></body></html>'))
        with w.internet():
            names, times = U.http_list(address(c, 'https', 'example.org', 'pub', 'dir'), **kw)
        if parent:
            want = expected([('/pub/', None)]+items, pattern, sort)
        c.eq(list(names), [n for n, _ in want], 'http-names')
        c.eq(list(times), [t for _, t in want], 'http-times')
    elif kind == 'drive':
        rows = [f'<tr><td><a class="text-left" href="/d/{n}">{n}</a></td><td>3 KB</td>'
            f'<td>{stamp(t, "%Y-%m-%d %H:%M:%S")}</td></tr>' for n, t in items]
        w.put('https://example.org/drive/dir', Page('<html><table>'+''.join(rows)+'</table></html>'))
        with w.internet():
            names, times = U.drive_list(address(c, 'https', 'example.org', 'drive', 'dir'),
                build=False, **kw)
        c.eq(list(names), [n for n, _ in want], 'drive-names')
        c.eq(list(times), [t for _, t in want], 'drive-times')
    elif kind == 'gsfc':
        rows = [f'<tr><td><a href="/sites/files/{n}">{n}</a></td></tr>' for n, _ in items
            if not n.endswith('/')]
        w.put('https://earth.gsfc.nasa.gov/geo/data/grace-mascons', Page(
            '<html><a href="/no">x</a><table>'+''.join(rows)+'</table></html>'))
        full = [('https://earth.gsfc.nasa.gov/sites/files/'+n, t) for n, t in items
            if not n.endswith('/')]
        with w.internet():
            names = U.gsfc_list(*([] if c.chance(.5) else [
                'https://earth.gsfc.nasa.gov/geo/data/grace-mascons']), **kw)
        c.ok(all(f.startswith('https:') for f in names), 'gsfc-scheme')
        c.eq(list(names), [n for n, _ in expected(full, pattern, sort)], 'gsfc-names')
    else:
        rows, want = [], {}
        for i in range(c.int(0, 5)):
            n = c.pick('EGM2008', 'GGM05C', 'eigen-6c4', 'GOCO06s')+str(i)
            bad = c.chance(.2)
            path = f'getmodel/gfc/{i}ab/{n}.'+('zip' if bad else 'gfc')
            rows.append(f'<tr><td class="tom-cell-name">{n}</td><td class="tom-cell-modelfile">'
                f'<a href="/{path}">gfc</a></td></tr>')
            if not bad:
                want[n] = tuple(path.split('/'))
        w.put('http://icgem.gfz-potsdam.de/tom_longtime', Page('<table>'+''.join(rows)
            +'</table>' if rows else '<p>none</p>'))
        with w.internet():
            got = U.icgem_list()
        c.eq({k: tuple(v) for k, v in got.items()}, want, 'icgem')
    w.pages.clear()
    with w.internet():
        fn = {'http': U.http_list, 'drive': lambda u: U.drive_list(u, build=False),
            'gsfc': U.gsfc_list, 'icgem': U.icgem_list}[kind]
        c.raises(Exception, 'missing-'+kind, fn, 'https://example.org/none')


@check.section('connections', quick=24, thorough=200)
def connections(c):
    """documents and probes of connections"""
    w = web()
    data = {'a': [1, 2.5, None], 'b': {'c': 'µ'*c.int(0, 9)}, 'n': c.int(-9, 9)}
    w.put('https://example.org/api/v1', Page(json.dumps(data)))
    with w.internet():
        c.eq(U.from_json(address(c, 'https', 'example.org', 'api', 'v1')), data, 'json')
        c.eq(w.log[-1].headers.get('accept'), 'application/json', 'accept')
        c.raises(RuntimeError, 'json-missing', U.from_json, 'https://example.org/api/no')
        c.ok(U.check_connection('https://example.org/api/v1') is True, 'connected')
        w.put(KEYS, Page('{}'))
        c.ok(U.check_credentials() is True, 'credentials')
        w.put(KEYS, Page('no', 401))
        c.raises(RuntimeError, 'credentials-denied', U.check_credentials)
        w.unreachable |= {'example.org', 'archive.podaac.earthdata.nasa.gov'}
        c.raises(RuntimeError, 'disconnected', U.check_connection, 'https://example.org/api/v1')
        c.raises(RuntimeError, 'credentials-disconnected', U.check_credentials)
        c.raises(Exception, 'json-disconnected', U.from_json, 'https://example.org/api/v1')
        w.unreachable.clear()
        w.ftpuser = person(c)
        c.ok(U.check_ftp_connection('ftp.example.org', *w.ftpuser) is True, 'ftp')
        c.raises(RuntimeError, 'ftp-denied', U.check_ftp_connection, 'ftp.example.org',
            w.ftpuser[0], 'wrong')
        w.unreachable.add('ftp.example.org')
        c.raises(RuntimeError, 'ftp-disconnected', U.check_ftp_connection, 'ftp.example.org')


@check.section('s3', quick=12, thorough=100)
def s3(c):
    """clients with temporary credentials, names of buckets and objects"""
    w = web()
    word = lambda n: ''.join(c.rng.choice(list('ABCDEFGHJKMNPQRSTUVWX0123456789'), n))
    keys = dict(accessKeyId='ASIA'+word(16), secretAccessKey=word(40),
        sessionToken=word(64), expiration='2030-01-01 00:00:00+00:00')
    host = c.pick(None, U._s3_endpoints['podaac'], 'https://example.org/s3credentials')
    w.put(host or U._s3_endpoints['podaac'], Page(json.dumps(keys)))
    region = c.pick(None, 'us-west-2', 'us-east-1', 'eu-central-1')
    kw = dict(region_name=region) if region else {}
    c.note(host=host, region=region)
    with w.internet():
        client = U.s3_client(*([host] if host else []), **kw)
    bucket = c.pick('podaac-ops-cumulus-protected', 'my.bucket', 'a-b')
    key = '/'.join(c.pick('GRACE', 'L2', 'x y', 'f.gz') for _ in range(c.int(1, 4)))
    c.eq(U.s3_bucket(f's3://{bucket}/{key}'), bucket, 'bucket')
    c.eq(U.s3_key(f's3://{bucket}/{key}'), key, 'key')
    # signing is local: the address shows what the client was made of
    from urllib.parse import urlsplit, parse_qs, unquote
    url = client.generate_presigned_url('get_object', Params=dict(
        Bucket=bucket, Key=key))
    q = parse_qs(urlsplit(url).query)
    text = unquote(url)
    c.ok(keys['accessKeyId'] in text, 'identity')
    c.ok(keys['sessionToken'] in text, 'token')
    c.ok(bucket in text and key in text, 'object')
    c.ok(client.meta.region_name == (region or 'us-west-2'), 'region')
    import boto3
    same = boto3.client('s3', aws_access_key_id=keys['accessKeyId'],
        aws_secret_access_key=keys['secretAccessKey'],
        aws_session_token=keys['sessionToken'], region_name=region or 'us-west-2')
    kw = dict(Params=dict(Bucket=bucket, Key=key), ExpiresIn=10**5)
    sign = lambda x: parse_qs(urlsplit(x.generate_presigned_url('get_object', **kw)).query)
    a, b = sign(client), sign(same)
    if {k: v for k, v in a.items() if 'Date' in k or 'Expires' in k} == \
            {k: v for k, v in b.items() if 'Date' in k or 'Expires' in k}:
        c.eq(a, b, 'secret')


@check.section('ftp', quick=50, thorough=700)
def ftp(c):
    w = web()
    body = blob(c)
    mt = c.int(10**9, 16*10**8)
    w.ftp['/pub/data/f.gz'] = Page(body, mtime=mt)
    if c.chance(.5):
        w.ftpuser = person(c)
    L = Local(c, body)
    kw = dict(zip(('username', 'password'), w.ftpuser)) if w.ftpuser else {}
    use = c.chance(.85)
    if use:
        kw['local'] = L.arg
    if c.chance(.6):
        kw['hash'] = U.get_hash(L.path)
    mode = 0o775
    if c.chance(.5):
        kw['mode'] = mode = c.pick(0o644, 0o600)
    host = c.pick('ftp.example.org/pub/data/f.gz', ['ftp.example.org', 'pub', 'data', 'f.gz'])
    c.note(size=len(body), local=L.state if use else None, login=w.ftpuser)
    with w.internet():
        r = U.from_ftp(host, timeout=20, **kw)
    buffer(c, r, body, 'f.gz')
    if not use or kw.get('hash') == md5(body):
        L.unchanged(c, 'kept')
    else:
        L.now(c, body, mode, 'stored')
        c.eq(int(os.stat(L.path).st_mtime), mt, 'time')


@check.section('ftp-faults', quick=30, thorough=300)
def ftp_faults(c):
    w = web()
    body = blob(c)+b'more than nothing'
    fault = c.cycle('missing', 'truncate', 'reset', 'denied', 'unreachable', 'stall')
    if c.quick and fault == 'stall' and c.index > 6:
        fault = 'reset'
    cut = c.pick(0, 1, len(body)-1, c.int(0, len(body)-1))
    w.cut = lambda n: min(cut, n-1)
    if fault != 'missing':
        w.ftp['/pub/f.gz'] = Page(body, mtime=10**9, fault=fault if fault in
            ('truncate', 'reset', 'stall') else None)
    if fault == 'denied':
        w.ftpuser = ('a', 'b')
    if fault == 'unreachable':
        w.unreachable.add('ftp.example.org')
    L = Local(c, body)
    c.note(fault=fault, cut=cut, size=len(body), local=L.state)
    with w.internet():
        c.raises(Exception, 'reported-'+fault, U.from_ftp, 'ftp.example.org/pub/f.gz',
            local=L.arg, hash=U.get_hash(L.path), timeout=.3 if fault == 'stall' else 20)
    w.cut = lambda n: n//2
    L.unchanged(c, 'kept-'+fault)


@check.section('ftp-list', quick=40, thorough=500)
def ftp_list(c):
    w = web()
    items = [(n.strip('/'), None if n.endswith('/') else t) for n, t in entries(c)
        if 'sub' not in n]
    for n, t in items:
        w.ftp['/pub/data/'+n] = Page(b'x', mtime=t)
    w.ftp['/pub/other.txt'] = Page(b'y', mtime=5)
    base = c.chance(.6)
    pattern = c.pick('', '', r'\.gz$', r'\d{4}', 'GSM|README')
    sort = c.chance(.5)
    c.note(items=items, basename=base, pattern=pattern, sort=sort)
    pre = '' if base else 'pub/data/'
    want = expected([(pre+n, t) for n, t in items], pattern, sort)
    with w.internet():
        names, times = U.ftp_list(c.pick('ftp.example.org/pub/data',
            ['ftp.example.org', 'pub', 'data']), timeout=20, basename=base,
            pattern=c.pick(None, '') if not pattern else pattern, sort=sort)
    c.eq(list(names), [n for n, _ in want], 'names')
    c.eq(list(times), [t for _, t in want], 'times')


def tree(d):
    out = {}
    for p, _, files in os.walk(d):
        for f in files:
            q = os.path.join(p, f)
            out[os.path.relpath(q, d)] = pathlib.Path(q).read_bytes()
    return out


CSR = 'http://download.csr.utexas.edu'


def remote(c, w, name):
    """servers of a data provider and the local files it stands for"""
    want = {}
    def put(url, local, body=None):
        want[local] = blob(c) if body is None else body
        w.put(url, Page(want[local]))
    def fput(path, local):
        want[local] = blob(c)
        w.ftp[path] = Page(want[local], mtime=10**9)
    if name == 'figshare':
        files = []
        for i, n in enumerate(['CSR_RL06_AW13_SLF_iter.txt', 'GFZ_RL06_SLF_iter.txt',
                'JPL_RL05_AW13_SLF_iter.txt', 'readme.txt', 'CSR_RL06_SLF.txt']):
            if c.chance(.7):
                url = f'https://ndownloader.figshare.com/files/{i}'
                b = blob(c)
                w.put(url, Page(b))
                files.append(dict(name=n, download_url=url, supplied_md5=md5(b)))
                if i in (0, 2):
                    want['geocenter/'+n] = b
        w.put('https://api.figshare.com/v2/articles/7388540', Page(json.dumps(dict(files=files))))
        return want, lambda d: U.from_figshare(d)
    if name == 'csr':
        var = c.pick(['SLR'], ['geocenter'], ['LRI'], 'SLR', 'geocenter', 'LRI',
            ['SLR', 'geocenter'], ('SLR', 'geocenter', 'LRI'))
        if 'SLR' in var:
            for p in ('degree_5/CSR_Monthly_5x5_Gravity_Harmonics.txt', 'degree_2/C20_RL06.txt',
                    'degree_2/C21_S21_RL06.txt', 'degree_2/C22_S22_RL06.txt', 'TN11E/TN11E.txt'):
                put(f'{CSR}/pub/slr/{p}', p.split('/')[-1])
        if 'geocenter' in var:
            put(f'{CSR}/pub/slr/geocenter/GCN_L1_L2_30d_CF-CM.txt', 'geocenter/GCN_L1_L2_30d_CF-CM.txt')
            put(f'{CSR}/outgoing/cheng/gct2est.220_5s', 'geocenter/gct2est.220_5s')
        if 'LRI' in var:
            row = lambda n: (f'<tr><td valign="top">x</td><td><a href="{n}">{n}</a></td>'
                '<td align="right">2020-02-03 04:05  </td><td align="right">1K</td></tr>')
            top = f'{CSR}/outgoing/gracefo/RL06.1LRI'
            years = ['2018', '2019', '2020'][:c.int(1, 3)]
            w.put(top, Page('<table>'+''.join(row(y+'/') for y in years)+row('notes')+'</table>'))
            for y in years:
                fs = [f'{p}-2_{y}{d:03d}-{y}{d+30:03d}_GRFO_UTCSR_{s}_0601.gz' for p, s in
                    (('GSM', 'EA01'), ('GAC', 'BC01'), ('GAD', 'BC01')) for d in (1, 40)]
                w.put(f'{top}/{y}/', Page('<table>'+''.join(map(row, fs))+'</table>'))
                for f in fs:
                    put(f'{top}/{y}/{f}', f'CSR/RL06.1LRI/{f[:3]}/{f}')
        return want, lambda d: U.from_csr(d, variable=var)
    if name == 'gfz':
        fput('/grace/Level-2/GFZ/RL06_SLR_C20/GFZ_RL06_C20_SLR.dat', 'GFZ_RL06_C20_SLR.dat')
        a = '/grace/GravIS/GFZ/Level-2B/aux_data/'
        fput(a+'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat',
            'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat')
        fput(a+'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat', 'geocenter/GRAVIS-2B_GFZOP_GEOCENTER_0003.dat')
        return want, lambda d: U.from_gfz(d)
    y1, m1, y2, m2 = c.int(1993, 2010), c.int(1, 12), c.int(2011, 2024), c.int(1, 12)
    mon = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
    text = (f'Title: SLR\nData span: {c.int(1, 28):02d} {mon[m1-1]} {y1} - '
        f'{c.int(1, 28)} {mon[m2-1]} {y2}\nend of header\n1 2 3\n').encode()
    put('https://earth.gsfc.nasa.gov/sites/default/files/geo/slr-weekly/gsfc_slr_5x5c61s61.txt',
        'gsfc_slr_5x5c61s61.txt', text)
    cp = c.chance(.6)
    if cp:
        want[f'GSFC_SLR_5x5c61s61_{y1}{m1:02d}_{y2}{m2:02d}.txt'] = text
    return want, lambda d: U.from_gsfc(d, copy=cp)


@check.section('providers', quick=48, thorough=500)
def providers(c):
    """the files of a provider, at their places; renewed only if they changed"""
    w = web()
    name = c.cycle('figshare', 'csr', 'gfz', 'gsfc')
    want, fn = remote(c, w, name)
    d = os.path.join(c.scratch(), 'data')
    os.makedirs(d)
    with open(os.path.join(d, 'mine.txt'), 'w') as h:
        h.write('mine')
    P = c.pick(str, pathlib.Path)
    c.note(name=name, files=sorted(want))
    with w.internet():
        fn(P(d))
        c.eq(tree(d), dict(want, **{'mine.txt': b'mine'}), 'files')
        for f in want:
            os.utime(os.path.join(d, f), (STAMP, STAMP))
        change = [f for f in want if c.chance(.3) and not f.startswith('GSFC_SLR')]
        for f in change:
            with open(os.path.join(d, f), 'ab') as h:
                h.write(b'changed')
            os.utime(os.path.join(d, f), (STAMP, STAMP))
        fn(P(d))
        c.eq(tree(d), dict(want, **{'mine.txt': b'mine'}), 'renewed')
        for f in want:
            if f not in change and not (f.startswith('GSFC_SLR') and change):
                c.eq(int(os.stat(os.path.join(d, f)).st_mtime), STAMP, 'not-rewritten')
        if name == 'figshare' and want:
            a = ('api.figshare.com', '/v2/articles/7388540')
            j = json.loads(w.pages[a].body)
            for f in j['files']:
                f['supplied_md5'] = md5(b'not it')
            w.pages[a] = Page(json.dumps(j))
            c.raises(Exception, 'checksum', fn, d)


@check.section('login', quick=40, thorough=400)
def login(c):
    """credentials come from arguments, .netrc, environment or the keyboard"""
    w = web()
    user, word = person(c)
    w.put(KEYS, guard(user, word, Page('{}')))
    w.put('https://urs.earthdata.nasa.gov/api/users/token', guard(user, word,
        lambda r: None))
    token = {'access_token': f't{c.int(0, 10**6)}'}
    ways = ['given', 'environment', 'keyboard', 'retry', 'retry-given', 'never']
    way = c.cycle(*ways, 'netrc') if ':' not in word else c.cycle(*ways)
    c.note(way=way)
    asked = []
    wrong = c.int(1, 3)
    answers = {'keyboard': [(user, word)], 'never': [('x', 'y')]*9,
        'retry': [('x', 'y')]*wrong+[(user, word)],
        'retry-given': [('x', 'y')]*(wrong-1)+[(user, word)]}.get(way, [])
    users, words = iter([a for a, _ in answers]), iter([b for _, b in answers])
    def ask(prompt=''):
        asked.append(prompt)
        return next(users)
    def secret(prompt=''):
        asked.append(prompt)
        return next(words)
    keep = builtins.input, getpass.getpass
    builtins.input, getpass.getpass = ask, secret
    urs = 'urs.earthdata.nasa.gov'
    kw = {}
    if c.chance(.3):
        kw = dict(password_manager=c.chance(.5), redirect=c.chance(.5))
    try:
        with home(c, **(dict(machines={urs: (user, word)}) if way == 'netrc' else {})), w.internet():
            if way == 'environment':
                os.environ['EARTHDATA_USERNAME'], os.environ['EARTHDATA_PASSWORD'] = user, word
            if way in ('given', 'retry-given'):
                kw.update(username=user, password=word if way == 'given' else 'not it')
            if way == 'never':
                c.raises(RuntimeError, 'never', U.attempt_login, urs, retries=wrong, **kw)
                return
            op = U.attempt_login(urs, **kw)
            c.ok(hasattr(op, 'open'), 'opener')
            n = dict(keyboard=2, retry=2*(wrong+1)).get(way, 2*wrong if way == 'retry-given' else 0)
            c.eq(len(asked), n, 'asked')
            c.eq(w.log[-1].headers.get('authorization'), basic(user, word), 'authorized')
            if way == 'netrc':
                c.eq(os.stat(os.path.join(os.environ['HOME'], '.netrc')).st_mode & 0o777, 0o600, 'private')
            t = lambda r: Page(json.dumps(dict(token, method=r.method)))
            for p in ('token', 'tokens', 'revoke_token'):
                w.put(f'https://urs.earthdata.nasa.gov/api/users/{p}', lambda r: t(r) if
                    r.headers.get('authorization') == basic(user, word) else Page('', 401))
            b = c.pick(dict(build=False), dict(username=user, password=word))
            c.eq(U.get_token(**b), dict(token, method='POST'), 'token')
            c.eq(U.list_tokens(**b), dict(token, method='GET'), 'tokens')
            U.revoke_token(token['access_token'], **b)
            r = w.log[-1]
            c.eq((r.method, r.path, r.query), ('POST', '/api/users/revoke_token',
                'token='+token['access_token']), 'revoked')
            w.pages.clear()
            for k, fn in (('get', U.get_token), ('list', U.list_tokens),
                    ('revoke', lambda **q: U.revoke_token('t', **q))):
                c.raises(RuntimeError, 'denied-'+k, fn, build=False)
    finally:
        builtins.input, getpass.getpass = keep
