"""P01: calculations depend on their arguments alone and leave them as they were."""
import copy
import importlib
import subprocess
import sys
import threading
import warnings

import numpy as np

from rv.core import Check, Case, Skip
from rv.objs import snap
from rv.watch import Watch, Breach, alike, equal

check = Check('P01', 'cases of the other checks run while every public function of '
    'the package is wrapped; each outermost call is made twice, first with copies that '
    'are overwritten together with its result, and the monitor compares arguments, '
    'object, global state, files, open descriptors and shared memory before and after '
    'and the two results bit for bit; recorded calls are made again in other orders, '
    'from several threads and with arrays of other layouts', [
    'objects that hand out their own arrays by design (units.get, to_dict and to_tuple '
    'of Love numbers, to_dict of harmonics, to_masked_array of grids, times of smooth '
    'and savitzky_golay) are exempt from the test of shared memory'])
SOURCES = ('M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'M07', 'M08', 'M09', 'M10', 'M11',
    'M12', 'F01', 'F02', 'U01', 'U02', 'T01', 'T02', 'T03', 'G01', 'K01', 'H01', 'H02',
    'H03', 'S01', 'S02', 'S03', 'S04', 'R01', 'R02', 'R03', 'R04', 'R05', 'R06', 'R07',
    'R08', 'N03')


def plain(module, quick=True):
    """sections of a check without the slowest"""
    return [s for s in module.check.sections if not quick or 'high' not in s[0]]


def drive(c, source, index, watch):
    module = importlib.import_module(f'checks.{source}')
    secs = plain(module, c.quick)
    name, fn = secs[index % len(secs)][:2]
    module.check.seed, module.check.tier = c.check.seed, c.check.tier
    sub = Case(module.check, name, index//len(secs)+1000)
    c.note(source=source, section=name, case=sub.index)
    try:
        with watch:
            module.check.run_case(sub, fn)
    except Breach as e:
        c.ok(False, e.key, e.message)
    for k, n in watch.calls.items():
        c.check.events[k] += n
        c.check.observed[f'call:{k}'] += n
    c.nobs += watch.seen


def register(source):
    n = len(importlib.import_module(f'checks.{source}').check.sections)

    @check.section(f'calls-{source}', quick=6*n, thorough=60*n)
    def section(c):
        drive(c, source, c.index, Watch(c))


for _s in SOURCES:
    register(_s)
PLAIN = ('M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'M07', 'M08', 'M09', 'M11', 'M12',
    'F01', 'F02', 'U01', 'T01', 'T02', 'T03', 'K01')


def recorded(c, cases):
    """calls of generated cases with their results"""
    out = []
    for _ in range(cases):
        source = c.pick(PLAIN)
        module = importlib.import_module(f'checks.{source}')
        secs = plain(module)
        name, fn = secs[c.int(0, len(secs)-1)][:2]
        module.check.seed, module.check.tier = c.check.seed, c.check.tier
        watch = Watch(c, repeat=False, record=12)
        try:
            with watch:
                module.check.run_case(Case(module.check, name, c.int(2000, 9000)), fn)
        except Breach as e:
            c.ok(False, e.key, e.message)
        out += watch.records
    if not out:
        raise Skip()
    return out


def repeat(item, view=None):
    name, fn, copies, want = item
    a, k = copy.deepcopy(copies)
    if view is not None:
        a, k = view(a), view(k)
    with np.errstate(all='ignore'):
        return fn(*a, **k)


@check.section('history', quick=6, thorough=150)
def history(c):
    """the same calls in other orders"""
    items = recorded(c, 12)
    c.note(calls=len(items), functions=len({x[0] for x in items}))
    for turn in range(3):
        for i in c.rng.permutation(len(items)):
            name, fn, copies, want = items[i]
            c.ok(equal(snap(repeat(items[i])), want), 'order',
                f'{name} depends on the calls before it')


@check.section('threads', quick=6, thorough=150)
def threads(c):
    """the same calls from several threads at a time"""
    items = recorded(c, 12)
    n = 6
    orders = [c.rng.permutation(len(items)) for _ in range(n)]
    wrong, switched = [], [0]
    gate = threading.Barrier(n)
    last = [None]

    def work(k):
        gate.wait()
        for i in orders[k]:
            try:
                ok = equal(snap(repeat(items[i])), items[i][3])
            except Exception as e:
                ok = False
            if last[0] != k:
                switched[0] += 1
                last[0] = k
            if not ok:
                wrong.append(items[i][0])
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pool = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            for t in pool:
                t.start()
            for t in pool:
                t.join()
    finally:
        sys.setswitchinterval(interval)
    c.note(calls=len(items), functions=len({x[0] for x in items}))
    c.check.events['switches between threads'] += switched[0]
    c.nobs += n*len(items)
    c.ok(not wrong, 'concurrent', f'wrong results of {sorted(set(wrong))}')


SERVER = """
import os, pickle, struct, sys, warnings
warnings.simplefilter('ignore')
sys.path[:0] = pickle.load(sys.stdin.buffer)
out = os.fdopen(os.dup(1), 'wb')
os.dup2(2, 1)
import numpy as np
import gravity_toolkit
import gravity_toolkit.utilities
from rv.objs import snap
while True:
    try:
        module, name, a, k = pickle.load(sys.stdin.buffer)
    except EOFError:
        break
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with np.errstate(all='ignore'):
                fn = getattr(__import__(module, fromlist=['x']), name)
                body = pickle.dumps((True, snap(fn(*a, **k))))
        except BaseException as e:
            body = pickle.dumps((False, repr(e)))
        with os.fdopen(w, 'wb') as f:
            f.write(body)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        body = f.read()
    os.waitpid(pid, 0)
    out.write(struct.pack('<q', len(body))+body)
    out.flush()
"""


class Fresh:
    """a process that makes each call as the first one of its life"""
    def __enter__(self):
        import pickle
        import struct
        self.pickle, self.struct = pickle, struct
        self.p = subprocess.Popen([sys.executable, '-c', SERVER],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.send(sys.path)
        return self

    def __exit__(self, *a):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.kill()
        self.p.wait()

    def send(self, o):
        self.p.stdin.write(self.pickle.dumps(o))
        self.p.stdin.flush()

    def call(self, fn, a, k):
        self.send((fn.__module__, fn.__name__, a, k))
        n, = self.struct.unpack('<q', self.p.stdout.read(8))
        return self.pickle.loads(self.p.stdout.read(n))


def varied(c, o, kind):
    """slightly other arguments: sizes, ends and (when swapped) sums are the same"""
    if isinstance(o, np.ma.MaskedArray):
        return o
    if isinstance(o, np.ndarray) and o.dtype.kind == 'f' and o.size > 4 and \
            kind in ('swap', 'nudge'):
        v = o.copy()
        flat = v.reshape(-1)
        # in the middle of the array, among nonzero values where there are any
        i = np.arange(2, flat.size-1)
        j = i[flat[i] != 0]
        i = j if j.size > 1 else i
        if i.size > 1 and kind == 'swap':
            i, j = c.rng.choice(i, 2, replace=False)
            flat[[i, j]] = flat[[j, i]]
        elif i.size:
            i = int(c.rng.choice(i))
            flat[i] += .25*(flat[i-1]-flat[i]) if flat[i-1] != flat[i] else .01*flat[i]
        return v
    if kind == 'integer' and isinstance(o, (int, np.integer)) and \
            not isinstance(o, bool) and 2 < o < 200:
        return o - 1
    if isinstance(o, dict):
        return {k: varied(c, v, kind) for k, v in o.items()}
    if isinstance(o, (list, tuple)) and type(o) in (list, tuple):
        return type(o)(varied(c, v, kind) for v in o)
    return o


@check.section('fresh', quick=6, thorough=150)
def fresh(c):
    """calls with slightly other arguments give what a new process gives"""
    items = recorded(c, 10)
    n = 0
    with Fresh() as server:
        for item in items:
            name, fn, copies, _ = item
            mod = sys.modules.get(fn.__module__)
            if getattr(mod, fn.__name__, None) is None:
                continue
            try:
                repeat(item)
            except Exception:
                continue
            for kind in ('swap', 'nudge', 'integer'):
                a, k = varied(c, copy.deepcopy(copies), kind)
                try:
                    with np.errstate(all='ignore'):
                        got = True, snap(fn(*copy.deepcopy(a), **copy.deepcopy(k)))
                except Exception as e:
                    got = False, repr(e)
                try:
                    want = server.call(fn, a, k)
                except (TypeError, AttributeError, server.pickle.PicklingError):
                    continue
                n += 1
                c.check.observed[f'fresh:{name}'] += 1
                c.ok(got[0] == want[0], 'fresh', f'{name} after a similar call: '
                    f'{got[1] if not got[0] else "result"}, in a new process: '
                    f'{want[1] if not want[0] else "result"}')
                c.ok(not got[0] or equal(got[1], want[1]), 'fresh',
                    f'{name} depends on a call with similar arguments before it ({kind})')
    c.note(calls=n)
    c.nobs += n


def relaid(c, kind):
    """the same numbers in another place in memory"""
    def view(o, depth=0):
        if isinstance(o, np.ma.MaskedArray):
            return o
        if isinstance(o, np.ndarray) and o.ndim and o.dtype != object:
            if kind == 'read-only':
                o = o.copy()
                o.flags.writeable = False
            elif kind == 'fortran':
                o = np.asfortranarray(o)
            elif kind == 'strided':
                big = np.zeros(tuple(2*n for n in o.shape), o.dtype)
                v = big[tuple(slice(None, None, 2) for _ in o.shape)]
                v[...] = o
                o = v
            elif kind == 'big-endian':
                o = o.astype(o.dtype.newbyteorder('>'))
            else:
                rev = tuple(slice(None, None, -1) for _ in o.shape)
                o = o[rev].copy()[rev]
            return o
        if isinstance(o, dict):
            return {k: view(v, depth+1) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return type(o)(view(v, depth+1) for v in o)
        return o
    return view


@check.section('layouts', quick=10, thorough=200)
def layouts(c):
    """the same calls with arrays in another layout or protected from writing"""
    items = recorded(c, 12)
    kind = c.cycle('read-only', 'fortran', 'strided', 'reversed', 'big-endian')
    c.note(calls=len(items), kind=kind)
    for name, fn, copies, want in items:
        try:
            got = repeat((name, fn, copies, want), relaid(c, kind))
        except Exception as e:
            if isinstance(e, FileNotFoundError):
                continue
            c.ok(False, kind, f'{name} fails with {kind} arrays: {e!r}')
        got = snap(got)
        if kind == 'big-endian':
            got, want = numbers(got), numbers(want)
        c.ok(alike(got, want, 1e-9), kind, f'{name} differs with {kind} arrays')


def numbers(o):
    """a snapshot with every number in double precision"""
    if isinstance(o, dict):
        return {k: numbers(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(numbers(v) for v in o)
    if isinstance(o, np.ndarray) and o.dtype.kind in 'iuf':
        return o.astype(np.float64)
    if isinstance(o, (int, float, np.number)) and not isinstance(o, (bool, complex)):
        return float(o)
    return o


def whole(o, kind):
    """numbers rounded to whole ones, stored in the given type"""
    if isinstance(o, np.ma.MaskedArray):
        return o
    if isinstance(o, np.ndarray) and o.dtype == np.float64 and \
            (np.abs(o) < 2e9).all():
        return (np.rint(o) + 0.0).astype(kind)
    if isinstance(o, dict):
        return {k: whole(v, kind) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(whole(v, kind) for v in o)
    return o


@check.section('whole-numbers', quick=10, thorough=200)
def integers(c):
    """the same whole numbers stored in another type"""
    items = recorded(c, 12)
    kind = c.cycle('i8', 'i4')
    c.note(calls=len(items), kind=kind)
    for item in items:
        name = item[0]
        try:
            want = repeat(item, lambda o: whole(o, 'f8'))
        except Exception:
            continue
        want = snap(want)
        c.check.observed[f'whole:{name}'] += 1
        try:
            got = repeat(item, lambda o: whole(o, kind))
        except Exception as e:
            c.ok(False, kind, f'{name} fails with whole numbers of type {kind}: {e!r}')
        c.ok(alike(numbers(snap(got)), numbers(want), 1e-9), kind,
            f'{name} differs with whole numbers of type {kind}')


if __name__ == '__main__':
    check.main()
