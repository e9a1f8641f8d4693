"""U02: files, hashes, times and text helpers."""
import calendar
import hashlib
import io
import json
import math
import multiprocessing
import os
import pathlib
import sys
import threading
import time
import time
import argparse
import numpy as np
import gravity_toolkit as g
from rv.core import Check

check = Check('U02', 'each case creates files, strings or numbers and compares '
    'the result of a helper with the drawn contents; unique files are opened '
    'by many threads and processes at once and every writer must own its file')
U = g.utilities


def blob(c, n=None):
    return c.rng.bytes(c.int(0, 5000) if n is None else n)


def stem(c):
    return c.pick('data', 'GRACE_2004', 'a.b', 'run_1', '.hidden', 'out')+c.pick(
        '.txt', '.nc', '', '.tar.gz', '.H5')


def sequence(name, k):
    p = pathlib.Path(name)
    return p.name if k == 0 else f'{p.stem}_{k}{p.suffix}'


@check.section('unique', quick=40, thorough=600)
def unique(c):
    """one caller: the first free name of the sequence; nothing is changed"""
    d = c.scratch()
    name = stem(c)
    taken = {}
    for k in range(c.int(0, 6)):
        if c.chance(.8):
            f = sequence(name, k)
            if c.chance(.2):
                os.mkdir(os.path.join(d, f))
                taken[f] = None
            else:
                taken[f] = blob(c, 20)
                with open(os.path.join(d, f), 'wb') as h:
                    h.write(taken[f])
    c.note(name=name, taken=list(taken))
    k = 0
    for _ in range(c.int(1, 4)):
        while sequence(name, k) in taken:
            k += 1
        p = os.path.join(d, name)
        fd = U.create_unique_file(p if c.chance(.5) else pathlib.Path(p))
        c.eq(os.path.basename(fd.name), sequence(name, k), 'name')
        w = write(fd, ''.join(c.pick(*'ab\u00e9\n 1') for _ in range(c.int(0, 30))))
        taken[sequence(name, k)] = w
    for f, w in taken.items():
        if w is not None:
            c.eq(pathlib.Path(d, f).read_bytes(), w, 'content')
    c.eq(sorted(os.listdir(d)), sorted(taken), 'files')


def attempt(fn, limit=20):
    """result or exception of a call that must end"""
    out = []
    def run():
        try:
            out.append(fn())
        except BaseException as e:
            out.append(e)
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(limit)
    return out[0] if out else None


def write(fd, text):
    """write to an open file (a log of a program), return the bytes"""
    fd.write(text.encode() if 'b' in fd.mode else text)
    fd.close()
    return text.encode()


def child(path, count, seed, q, bar):
    names = []
    try:
        bar.wait(60)
        for k in range(count):
            fd = U.create_unique_file(path)
            text = f'{seed} {k}'
            write(fd, text)
            names.append((str(fd.name), text))
        q.put(names)
    except BaseException as e:
        q.put(repr(e))


@check.section('unique-concurrent', quick=12, thorough=120)
def concurrent(c):
    """many callers: every caller owns a different file of the sequence"""
    d = c.scratch()
    name = stem(c)
    path = os.path.join(d, name)
    workers, each = c.int(2, 8), c.int(1, 6)
    procs = c.cycle(False, True, False)
    old = c.chance(.3)
    if old:
        with open(path, 'wb') as h:
            h.write(b'old')
    got = []
    if procs:
        ctx = multiprocessing.get_context('fork')
        q, bar = ctx.SimpleQueue(), ctx.Barrier(workers)
        ps = [ctx.Process(target=child, args=(path, each, i, q, bar))
            for i in range(workers)]
        for p in ps:
            p.start()
        out = []
        end = time.monotonic()+60
        while len(out) < workers and time.monotonic() < end:
            if q._reader.poll(.1):
                out.append(q.get())
            elif not any(p.is_alive() for p in ps) and not q._reader.poll(0):
                break
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.kill()
    else:
        import queue
        q, bar = queue.Queue(), threading.Barrier(workers)
        keep = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=child, args=(path, each, i, q, bar))
                for i in range(workers)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(keep)
        out = []
        while not q.empty():
            out.append(q.get())
    c.eq([x for x in out if isinstance(x, str)], [], 'callers')
    c.eq(len(out), workers, 'callers-end')
    for x in out:
        got += x
    c.note(workers=workers, each=each, processes=procs, name=name)
    n = workers*each
    c.eq(len(got), n, 'all')
    want = {sequence(name, k) for k in range(old, n+old)}
    c.eq({os.path.basename(f) for f, _ in got}, want, 'names')
    for f, text in got:
        c.eq(open(f).read(), text, 'owner')
    if old:
        c.eq(open(path).read(), 'old', 'kept')
    order = [t.split()[0] for _, t in sorted(got, key=lambda v: (len(v[0]), v[0]))]
    c.check.observed['unique-concurrent:switches'] += sum(
        a != b for a, b in zip(order, order[1:]))


@check.section('unique-impossible', quick=4, thorough=20)
def impossible(c):
    """a file that cannot be created is an error, not an endless search"""
    d = c.scratch()
    kind = c.cycle('missing', 'file', 'long', 'null')
    c.note(kind=kind)
    if kind == 'missing':
        p = os.path.join(d, 'no', 'data.txt')
    elif kind == 'file':
        open(os.path.join(d, 'f'), 'w').close()
        p = os.path.join(d, 'f', 'data.txt')
    elif kind == 'long':
        p = os.path.join(d, 'x'*300+'.txt')
    else:
        p = os.path.join(d, 'no', 'a', 'b')
    before = sorted(os.listdir(d))
    r = attempt(lambda: U.create_unique_file(p), 10 if c.quick else 30)
    c.ok(isinstance(r, OSError), 'error', f'{r!r} for {kind}')
    c.eq(sorted(os.listdir(d)), before, 'files')


@check.section('hash', quick=30, thorough=400)
def hashes(c):
    b = blob(c)
    alg = c.pick('md5', 'sha1', 'sha256', 'sha512', 'blake2b')
    want = hashlib.new(alg, b).hexdigest()
    f = os.path.join(c.scratch(), stem(c))
    with open(f, 'wb') as h:
        h.write(b)
    kw = {} if alg == 'md5' and c.chance(.6) else dict(algorithm=alg)
    c.eq(U.get_hash(f, **kw), want, 'str')
    c.eq(U.get_hash(pathlib.Path(f), **kw), want, 'path')
    s = io.BytesIO(b)
    s.seek(c.int(0, len(b)))
    at = s.tell()
    c.eq(U.get_hash(s, **kw), want, 'buffer')
    c.eq(s.tell(), at, 'position')
    c.eq(U.get_hash(f+'.missing', **kw), '', 'missing')
    c.raises(ValueError, 'algorithm', U.get_hash, f, algorithm='none')
    c.raises(ValueError, 'algorithm-buffer', U.get_hash, s, algorithm='none')


@check.section('copy', quick=30, thorough=300)
def copies(c):
    """content, times and permissions are those of the source"""
    d = c.scratch()
    a, b = os.path.join(d, 'in'+stem(c)), os.path.join(d, 'out'+stem(c))
    data = blob(c)
    with open(a, 'wb') as h:
        h.write(data)
    mode, mt = c.pick(0o644, 0o600, 0o755), c.int(10**8, 2*10**9)
    os.chmod(a, mode)
    os.utime(a, (mt, mt))
    if c.chance(.4):
        with open(b, 'wb') as h:
            h.write(blob(c))
    move = c.chance(.5)
    c.note(move=move)
    P = c.pick(str, pathlib.Path)
    U.copy(P(a), P(b), **(dict(move=True) if move else c.pick({}, dict(move=False))))
    c.eq(pathlib.Path(b).read_bytes(), data, 'content')
    st = os.stat(b)
    c.eq((st.st_mode & 0o777, int(st.st_mtime)), (mode, mt), 'stat')
    c.eq(os.path.exists(a), not move, 'source')
    try:
        U.copy(b, b, move=True)
    except Exception:
        pass
    c.eq(pathlib.Path(b).read_bytes(), data, 'onto-itself')


ZONES = ('UTC', 'America/New_York', 'Asia/Tokyo', 'XYZ5')


@check.section('unix-time', quick=60, thorough=1000)
def unix(c):
    """seconds since 1970 in UTC in any local time zone"""
    s = c.int(0, 2*10**9)
    tz = c.cycle(*ZONES)
    off = c.pick(0, 0, 3600*2, -3600*5, 1800*11)
    keep = os.environ.get('TZ')
    gm = time.gmtime(s)
    lo = time.gmtime(s+off)
    zone = '{}{:02d}{:02d}'.format('-' if off < 0 else '+', abs(off)//3600, abs(off)//60 % 60)
    os.environ['TZ'] = tz
    time.tzset()
    try:
        c.note(seconds=s, zone=tz, offset=off)
        f = time.strftime
        c.eq(U.get_unix_time(f('%Y-%m-%d %H:%M:%S', gm)), s, 'default')
        c.eq(U.get_unix_time(f('%Y-%m-%d %H:%M:%S', gm)+' \n'), s, 'trailing')
        c.eq(U.get_unix_time(f('%Y%m%d%H%M%S', gm), format='%Y%m%d%H%M%S'), s, 'format')
        c.eq(U.get_unix_time(f('%Y-%m-%d %H:%M', gm), format='%Y-%m-%d %H:%M'), s//60*60, 'minutes')
        for k, fmt in (('iso', '%Y-%m-%dT%H:%M:%S'), ('month', '%d %b %Y %H:%M:%S'),
                ('year', '%b %d, %Y %H:%M:%S')):
            r = U.get_unix_time(f(fmt, gm))
            c.ok(r is not None and abs(r-s) < 1e-3, 'parsed-'+k, f'{r} is not {s}')
            r = U.get_unix_time(f(fmt, lo)+zone)
            c.ok(r is not None and abs(r-s) < 1e-3, 'parsed-zone', f'{r} is not {s}')
        c.eq(U.get_unix_time(f('%Y-%m-%dT%H:%M:%S.250', lo)+zone,
            format='%Y-%m-%dT%H:%M:%S.%f%z'), s, 'zone')
        c.eq(U.get_unix_time(f('%Y-%m-%dT%H:%M:%S.000Z', gm),
            format='%Y-%m-%dT%H:%M:%S.%f%z'), s, 'zulu')
        c.eq(U.isoformat(f('%d %b %Y %H:%M:%S', gm)), f('%Y-%m-%dT%H:%M:%S', gm), 'isoformat')
        c.eq(U.isoformat(f('%Y-%m-%d', gm)), f('%Y-%m-%dT00:00:00', gm), 'isoformat-date')
    finally:
        if keep is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = keep
        time.tzset()
    for bad in ('', '-', '  - ', 'no time', '&nbsp;'):
        c.eq(U.get_unix_time(bad), None, 'unparsed')
        c.eq(U.isoformat(bad), None, 'unparsed-iso')


@check.section('urls', quick=40, thorough=400)
def urls(c):
    """the parts of a url make the url"""
    n = c.int(0, 6)
    part = lambda: c.pick('data', 'a b', 'RL06.1', 'x-y_z', '2004', 'q?a=1', 'file.nc')
    scheme = c.pick('https://', 'http://', 'ftp://', 's3://', '')
    host = c.pick('example.com', 'localhost:8080', 'bucket-name')
    parts = [part() for _ in range(n)]
    url = '/'.join([scheme+host, *parts])
    c.note(url=url)
    r = U.url_split(url)
    c.eq(tuple(r), (scheme+host, *parts), 'split')
    if scheme == 's3://':
        c.eq(U.s3_bucket(url), host, 'bucket')
        if n:
            c.eq(U.s3_key(url), '/'.join(parts), 'key')
    if n:
        c.eq(tuple(U.url_split('/'+'/'.join(parts))), tuple(parts), 'absolute')


@check.section('arguments', quick=30, thorough=300)
def arguments(c):
    """lines of parameter files, comments and options"""
    words, lines = [], []
    for _ in range(c.int(0, 8)):
        w = [c.pick('--lmax', '60', '-M', '0o755', '--file=a.nc', 'x,y', '-1.5')
            for _ in range(c.int(0, 4))]
        words += w
        lines.append(c.pick('', ' ', '\t')+c.pick(' ', '  ', '\t').join(w)
            +c.pick('', ' # comment', '# --lmax 20', ' #'))
    got = [a for l in lines for a in U.convert_arg_line_to_args(l)]
    c.eq(got, words, 'words')
    f = os.path.join(c.scratch(), 'arguments.txt')
    with open(f, 'w') as h:
        h.write('\n'.join(lines+[f'--value {c.int(0, 99)} # last'])+'\n')
    p = argparse.ArgumentParser(fromfile_prefix_chars='@')
    p.convert_arg_line_to_args = U.convert_arg_line_to_args
    p.add_argument('--value', type=int)
    a, rest = p.parse_known_args(['@'+f])
    c.ok(0 <= a.value < 100, 'file')
    c.eq(rest, words, 'rest')


@check.section('numbers', quick=30, thorough=400)
def numbers(c):
    for _ in range(20):
        x = c.pick(float(c.rng.uniform(-100, 100)), c.int(-50, 50), float(c.int(-50, 50)),
            c.int(-50, 50)+.5)
        e = U.even(x)
        c.ok(isinstance(e, int) and e % 2 == 0 and e <= x < e+2, 'even', f'{x}: {e}')
        k = U.ceil(x)
        c.ok(isinstance(k, int) and k == math.ceil(x), 'ceil', f'{x}: {k}')


@check.section('packages', quick=8, thorough=40)
def packages(c):
    """optional packages, paths of data and computed attributes"""
    c.ok(U.import_dependency('json') is json, 'module')
    m = U.import_dependency('no_such_module_')
    c.ok(m is not None and not hasattr(m, 'anything'), 'stand-in')
    c.raises(ImportError, 'missing', U.import_dependency, 'no_such_module_', raise_exception=True)
    c.raises(AssertionError, 'name', U.import_dependency, 3)
    root = pathlib.Path(g.__file__).absolute().parent
    for rel in (['data', 'love_numbers'], 'data', pathlib.Path('data', 'x.nc'), ['version.txt']):
        c.eq(U.get_data_path(rel), root.joinpath(*(rel if isinstance(rel, list) else [rel])), 'path')
    calls = []
    class A:
        @U.reify
        def value(self):
            """doc"""
            calls.append(1)
            return len(calls)
    a, b = A(), A()
    c.eq([a.value, a.value, b.value, a.value, b.value], [1, 1, 2, 1, 2], 'once')
    c.eq(A.value.__doc__, 'doc', 'class')
