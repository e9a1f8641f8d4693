"""monitor of calls: every public function of the package is wrapped; each outermost
call is observed for changes of its arguments, of global state and of files, for
memory shared between results and arguments, and for dependence on earlier calls"""
import copy
import contextlib
import functools
import gc
import hashlib
import inspect
import io
import locale
import logging
import os
import pathlib
import random
import re
import socket
import sys
import threading
import types
import warnings

import numpy as np

import gravity_toolkit as g
from rv.objs import snap, same

MODULES = ('time', 'time_series', 'tools', 'SLR', 'mascons', 'units', 'utilities')
CLASSES = ('harmonics', 'spatial', 'geocenter', 'scaling_factors', 'units',
    'love_numbers', 'gia')
# functions that exist for their effects
EFFECTS = {'grace_date', 'grace_months_index', 'copy_file', 'create_unique_file',
    'custom_colormap', 'get_git_revision_hash', 'get_git_status', 'import_dependency',
    'get_data_path'}
HELPERS = {'even', 'ceil', 'isoformat', 'get_unix_time', 'url_split', 'get_hash',
    'cmr_product_shortname', 'cmr_readable_granules',
    'cmr_filter_json', 'cmr_metadata_json', 'compile_regex_pattern'}


class Breach(BaseException):
    def __init__(self, key, message):
        super().__init__(message)
        self.key, self.message = key, message


def arrays(o, out=None, depth=0):
    """arrays reachable from a value"""
    out = [] if out is None else out
    if isinstance(o, np.ma.MaskedArray):
        out.append(np.ma.getdata(o))
        if np.ma.getmask(o) is not np.ma.nomask:
            out.append(np.ma.getmask(o))
    elif isinstance(o, np.ndarray):
        out.append(o)
    elif depth < 6:
        if isinstance(o, dict):
            for v in o.values():
                arrays(v, out, depth+1)
        elif isinstance(o, (list, tuple)):
            for v in o:
                arrays(v, out, depth+1)
        elif type(o).__module__.startswith('gravity') and hasattr(o, '__dict__'):
            for v in vars(o).values():
                arrays(v, out, depth+1)
    return out


def poison(o, depth=0):
    """overwrite everything a value owns"""
    for x in arrays(o):
        if x.flags.writeable and x.size:
            if x.dtype.kind in 'fc':
                x[...] = -7.77e77 if x.dtype.itemsize > 4 else -7.7e7
            elif x.dtype.kind in 'iu':
                x[...] = 77
            elif x.dtype.kind == 'b':
                x[...] = ~x
    if isinstance(o, tuple):
        for v in o:
            poison(v, depth+1)
    elif depth < 6 and isinstance(o, (list, dict)):
        for v in (o.values() if isinstance(o, dict) else o):
            if not isinstance(v, np.ndarray):
                poison(v, depth+1)
        o.clear()


def containers(o, out=None, depth=0):
    """lists and dictionaries reachable from a value"""
    out = {} if out is None else out
    if depth < 6:
        if isinstance(o, (list, dict)):
            if o:
                out[id(o)] = o
            for v in (o.values() if isinstance(o, dict) else o[:200]):
                containers(v, out, depth+1)
        elif isinstance(o, tuple):
            for v in o[:200]:
                containers(v, out, depth+1)
        elif type(o).__module__.startswith('gravity') and hasattr(o, '__dict__'):
            for v in vars(o).values():
                containers(v, out, depth+1)
    return out


def shared(a, b):
    if containers(a).keys() & containers(b).keys():
        return True
    for x in arrays(a):
        for y in arrays(b):
            if x.ndim and y.ndim and x.size and y.size and np.may_share_memory(x, y) and np.shares_memory(x, y):
                return True
    return False


def surroundings():
    mask = os.umask(0o22)
    os.umask(mask)
    return {'numpy errors': np.geterr(), 'print options': repr(np.get_printoptions()),
        'directory': os.getcwd(), 'environment': dict(os.environ),
        'random numbers': (hash(random.getstate()), np.random.get_state()[1].tobytes(),
        np.random.get_state()[2]), 'warnings': list(map(repr, warnings.filters)),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.disabled),
        'locale': locale.setlocale(locale.LC_ALL), 'path': list(sys.path), 'umask': mask,
        'threads': threading.active_count(), 'timeout': socket.getdefaulttimeout(),
        'recursion': sys.getrecursionlimit()}


def descriptors():
    return len(os.listdir('/proc/self/fd'))


def stored(o, out=None):
    """digests of files named by the arguments"""
    out = {} if out is None else out
    if isinstance(o, (str, pathlib.PurePath)) and os.path.isabs(o) and \
            len(str(o)) < 400 and '\n' not in str(o):
        try:
            if os.path.isfile(o):
                st = os.stat(o)
                with open(o, 'rb') as f:
                    out[str(o)] = (st.st_size, st.st_mtime_ns, st.st_mode,
                        hashlib.md5(f.read()).hexdigest())
        except (OSError, ValueError):
            pass
    elif isinstance(o, (list, tuple)):
        for v in o[:50]:
            stored(v, out)
    elif isinstance(o, dict):
        for v in o.values():
            stored(v, out)
    return out


def named(o):
    """a file is among the arguments"""
    if isinstance(o, (str, pathlib.PurePath)):
        return len(str(o)) < 400 and '\n' not in str(o) and os.path.isfile(o)
    if isinstance(o, dict):
        o = list(o.values())
    return isinstance(o, (list, tuple)) and any(named(v) for v in o[:50])


def replayable(o, depth=0):
    """made of values that a copy represents"""
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic,
            np.ndarray, pathlib.PurePath, type, io.BytesIO)):
        return True
    if depth > 6:
        return False
    if isinstance(o, dict):
        return all(replayable(v, depth+1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return all(replayable(v, depth+1) for v in o)
    if type(o).__module__.startswith('gravity') and hasattr(o, '__dict__'):
        return all(replayable(v, depth+1) for v in vars(o).values())
    return type(o).__module__ in ('datetime', 're', 'numpy')


@contextlib.contextmanager
def quiet():
    level = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        logging.disable(level)


SOFT = None


def held(own):
    """what an object holds, without its dimensions"""
    return [{k: np.array(v) if isinstance(v, (np.ndarray, np.generic, int, float)) and
        not isinstance(v, np.ma.MaskedArray) else snap(v) for k, v in vars(o).items()
        if k not in ('l', 'm', 'lmax', 'mmax')} for o in own if hasattr(o, '__dict__')]


def unequal(a, b):
    """objects hold other values (of any numeric type)"""
    for x, y in zip(a, b):
        if x.keys() != y.keys():
            return True
        for k in x:
            if isinstance(x[k], np.ndarray) and isinstance(y[k], np.ndarray) and \
                    x[k].dtype.kind in 'biuf' and y[k].dtype.kind in 'biuf':
                if not np.array_equal(x[k].astype(float), y[k].astype(float), equal_nan=True):
                    return True
            elif not same(x[k], y[k]):
                return True
    return False


def function(o):
    """a function, also in the form of an object that calls it"""
    return inspect.isfunction(o) or (callable(o) and not isinstance(o, type) and
        inspect.isfunction(getattr(o, '__wrapped__', None)) and
        isinstance(getattr(o, '__module__', None), str))


def alike(got, want, tol):
    """snapshots agree up to rounding"""
    if type(got) is not type(want):
        return False
    if isinstance(want, dict):
        return got.keys() == want.keys() and all(alike(got[k], want[k], tol) for k in want)
    if isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(alike(x, y, tol) for x, y in zip(got, want))
    if isinstance(want, np.ndarray) and want.dtype.kind in 'fc':
        if got.shape != want.shape or got.dtype != want.dtype:
            return False
        fin = np.abs(want[np.isfinite(want)])
        return bool(np.all((np.abs(got-want) <= tol*(fin.max() if fin.size else 0)) |
            (got == want) | (np.isnan(got) & np.isnan(want))))
    if isinstance(want, (float, np.floating)):
        return bool(abs(got-want) <= tol*abs(want) or got == want or
            (got != got and want != want))
    return same(got, want)


def equal(a, b):
    """snapshots of two calls: sums may be taken in another order"""
    with np.errstate(all='ignore'):
        return same(a, b) or alike(a, b, 1e-10)


def substance(o):
    """a result that is more than zeros"""
    return any(x.dtype.kind == 'f' and np.any(x) for x in arrays(o))


class Watch:
    def __init__(self, c=None, repeat=True, record=0):
        self.c, self.repeat, self.limit = c, repeat, record
        self.depth, self.records, self.seen = 0, [], 0
        self.main = threading.get_ident()
        self.undo = []
        self.calls = {}
        self.emptied = 0

    # -- installation
    def __enter__(self):
        done = {}
        for space in (g, *(getattr(g, m) for m in MODULES)):
            if not isinstance(space, types.ModuleType):
                continue
            for name, fn in list(vars(space).items()):
                if function(fn) and fn.__module__.startswith('gravity_toolkit') \
                        and not name.startswith('_') and name not in EFFECTS and \
                        (space is not g.utilities or name in HELPERS):
                    done.setdefault(fn, self.wrap(fn, name, None))
                    self.put(space, name, done[fn])
        for name in CLASSES:
            cls = getattr(g, name, None)
            if cls is None:
                continue
            for key, fn in list(vars(cls).items()):
                if function(fn) and not key.startswith('_'):
                    self.put(cls, key, self.wrap(fn, f'{cls.__name__}.{key}', cls))
        return self

    def put(self, space, name, value):
        self.undo.append((space, name, space.__dict__[name]))
        setattr(space, name, value)

    def __exit__(self, *a):
        for space, name, value in reversed(self.undo):
            setattr(space, name, value)

    def wrap(self, fn, name, cls):
        @functools.wraps(fn)
        def watched(*a, **k):
            if self.depth or threading.get_ident() != self.main:
                return fn(*a, **k)
            self.depth += 1
            try:
                return self.call(fn, name, cls, a, k)
            finally:
                self.depth -= 1
        return watched

    # -- the monitor
    def call(self, fn, name, cls, a, k):
        self.calls[name] = self.calls.get(name, 0)+1
        method = name.split('.')[-1]
        writer = cls is not None and method in ('to_ascii', 'to_netCDF4', 'to_HDF5',
            'to_index', 'to_file')
        own, rest = (a[:1], a[1:]) if cls is not None else ((), a)
        before, was = snap(rest, k), held(own)
        files = {} if writer else stored((rest, k))
        first = None
        copies = None
        if not writer and replayable((a, k)):
            copies = copy.deepcopy((a, k))
        if self.repeat and copies is not None:
            a0, k0 = copy.deepcopy(copies)
            with quiet():
                try:
                    r0 = fn(*a0, **k0)
                    first = ('value', snap(r0, a0[:len(own)]))
                    poison((r0, a0, k0))
                except Exception as e:
                    first = ('error', type(e).__name__)
        with np.errstate(divide='warn', over='warn', under='ignore', invalid='warn'):
            here = surroundings()
            fds = descriptors()
            try:
                r = fn(*a, **k)
            except Exception as e:
                self.unchanged(name, before, rest, k, files, here)
                if first is not None and first != ('error', type(e).__name__):
                    self.found('repeatable', f'{name}: the second call raised {e!r}, '
                        f'the first one did not ({first[0]})')
                raise
            self.unchanged(name, before, rest, k, files, here)
        if descriptors() > fds:
            gc.collect()
            if descriptors() > fds and not isinstance(r, io.IOBase):
                self.found('descriptors', f'{name} left a file open')
        self.seen += 1
        # readers and writers note the name of the file, means may be applied
        if own and r is not own[0] and not writer and method != 'mean' and \
                not method.startswith('from_') and unequal(was, held(own)):
            self.found('receiver', f'{name} returns something else but changed its object')
        if first is not None and not (first[0] == 'value' and
                equal(first[1], snap(r, own))):
            self.found('repeatable', f'{name}: a second call with the same arguments '
                f'differs from the first one')
        if first is not None and first[0] == 'value' and len(files) == 1 and substance((r, own)) and \
                READER.match(method) and self.emptied < 2:
            self.emptied += 1
            self.reread(fn, name, next(iter(files)), first[1], copies, len(own))
        if shared(r if cls is None or not own or r is not own[0] else None, (rest, k)) \
                and name not in VIEWS:
            self.found('shared', f'the result of {name} shares memory with its arguments')
        if cls is not None and own and r is own[0] and shared(
                {x: y for x, y in vars(r).items() if x != 'attributes'}, (rest, k)):
            self.found('shared', f'{name}: the object shares memory with its arguments')
        if cls is not None and own and r is not own[0] and shared(r, own) and \
                name not in VIEWS:
            self.found('shared', f'the result of {name} shares memory with the object')
        if self.limit and cls is None and copies is not None and not named(copies):
            item = (name, fn, copies, snap(r))
            if len(self.records) < self.limit:
                self.records.append(item)
            else:
                i = random.Random(self.seen).randrange(self.seen)
                if i < self.limit:
                    self.records[i] = item
        return r

    def reread(self, fn, name, path, was, copies, own):
        """a file that was emptied is not the same file"""
        with open(path, 'rb') as f:
            body = f.read()
        st = os.stat(path)
        if not body:
            return
        os.chmod(path, st.st_mode | 0o200)
        a, k = copy.deepcopy(copies)
        try:
            with open(path, 'wb'):
                pass
            with quiet():
                try:
                    again = snap(fn(*a, **k), a[:own])
                except Exception:
                    return
                if same(was, again):
                    self.found('stale', f'{name} does not read its file again')
        finally:
            with open(path, 'wb') as f:
                f.write(body)
            os.chmod(path, st.st_mode)
            os.utime(path, ns=(st.st_atime_ns, st.st_mtime_ns))

    def found(self, key, message):
        if SOFT is None:
            raise Breach(key, message)
        SOFT[f'{key}: {message}'] = SOFT.get(f'{key}: {message}', 0)+1

    def unchanged(self, name, before, rest, k, files, here):
        if not same(before, snap(rest, k)):
            self.found('arguments', f'{name} changed its arguments')
        now = surroundings()
        for key in here:
            if here[key] != now[key]:
                self.found('surroundings', f'{name} changed the {key} of the process')
        if files and stored((rest, k)) != files:
            self.found('files', f'{name} changed a file it was given')


# results that are documented to refer to the data of the object or the argument
READER = re.compile(r'read_|from_(?!dict|list|file|harm|matr|cart|cmwe|mmwe)|'
    r'C[2345]0|CS2|load_love')
VIEWS = {'units.get', 'love_numbers.to_tuple', 'love_numbers.to_dict',
    'harmonics.to_dict', 'spatial.to_masked_array', 'smooth', 'savitzky_golay'}
