"""X12: command line options reach the calculation and have their documented values."""
import contextlib
import inspect
import io
import logging
import os
import pathlib

import gravity_toolkit as g
from rv import prog
from rv.core import Check, Skip
from rv.options import PROGRAMS

check = Check('X12', 'main() of every program is run with generated command lines while '
    'the function it calls is replaced by a recorder; what the recorder is given is '
    'compared with a table of the documented options (spellings, types, choices, '
    'defaults and the parameters they set)', ['unknown options are ignored by design'])
NAMES = sorted(PROGRAMS)
LIBRARY = ('check_connection', 'check_ftp_connection', 'attempt_login', 's3_client')
LEVELS = [logging.CRITICAL, logging.INFO, logging.DEBUG]


class Failure(Exception):
    pass


def plain(v, cwd):
    """values in the form of the table"""
    if isinstance(v, pathlib.PurePath):
        return ('path', str(v).replace(os.path.dirname(os.path.abspath(g.__file__)),
            '{package}').replace(cwd, '{cwd}'))
    if isinstance(v, (list, tuple, range)):
        return [plain(x, cwd) for x in v]
    if hasattr(v, 'item') and getattr(v, 'ndim', 1) == 0:
        return v.item()
    return v


class Run:
    """what one run of a program handed to its function"""
    def __init__(self, c, name, argv, fail=False):
        self.calls, self.logs, self.error, self.level = [], [], None, None
        self.asked = []
        p = PROGRAMS[name]
        mod = prog.load(name)
        fn = getattr(mod, p['function'], None)
        if not inspect.isfunction(fn) or not hasattr(mod, 'main'):
            raise Skip('the function of the table is gone')
        cwd = os.path.abspath(c.scratch())
        sig = inspect.signature(fn)
        self.files = [os.path.join(cwd, 'one'), os.path.join(cwd, 'two')]

        def recorder(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            d = dict(b.arguments)
            for q in sig.parameters.values():
                if q.kind is q.VAR_KEYWORD:
                    d.update(d.pop(q.name, {}))
            self.calls.append({x: plain(y, cwd) for x, y in d.items()})
            if fail:
                raise Failure('stopped')
            return 0.0 if name == 'calc_harmonic_resolution' else \
                (self.files, 7) if name == 'calc_degree_one' else self.files

        old = {x: getattr(mod, x) for x in (p['function'], 'output_log_file',
            'output_error_log_file') if hasattr(mod, x)}
        lib = {x: getattr(g.utilities, x) for x in LIBRARY}
        basic, here, rec = logging.basicConfig, os.getcwd(), prog.Records()
        root = logging.root
        state = root.handlers[:], root.level, root.manager.disable
        out, err = io.StringIO(), io.StringIO()
        try:
            os.chdir(cwd)
            for x in old:
                setattr(mod, x, lambda *a, _x=x, **k: self.logs.append((_x, a)))
            setattr(mod, p['function'], recorder)
            for x in lib:
                setattr(g.utilities, x, self.ask(x, lib[x]))
            logging.basicConfig = lambda **k: setattr(self, 'level', k.get('level'))
            logging.disable(logging.NOTSET)
            root.handlers[:] = [rec]
            with prog.arguments(name, argv), contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(err):
                try:
                    mod.main()
                except SystemExit as e:
                    self.error = f'exit {e.code} {err.getvalue().strip()[-200:]}'
                except Exception as e:
                    self.error = e
        finally:
            os.chdir(here)
            logging.basicConfig = basic
            root.handlers[:], root.level, root.manager.disable = state
            for x, y in old.items():
                setattr(mod, x, y)
            for x, y in lib.items():
                setattr(g.utilities, x, y)
        self.errors = rec.errors
        self.out = out.getvalue()

    def ask(self, name, fn):
        """stand-in for a function of the library that needs a network"""
        sig = inspect.signature(fn)

        def answer(*a, **k):
            d = dict(sig.bind(*a, **k).arguments)
            for q in sig.parameters.values():
                if q.kind is q.VAR_KEYWORD:
                    d.update(d.pop(q.name, {}))
            self.asked.append((name, d))
            return f'a {name}'
        return answer


MASKED = [n for n in NAMES if any(o[0][0] == '--mask' and not o[5]
    for o in PROGRAMS[n]['options'])]


def text(c, kind, choices, k):
    """(word of the command line, value)"""
    if choices is not None:
        w = c.pick(choices)
    elif kind == 'int':
        w = str(c.int(1, 400))
    elif kind == 'float':
        w = c.pick(str(c.int(0, 900)), f'{c.rng.uniform(-50, 900):.3f}', '0.5', '1e-3')
    elif kind == 'octal':
        w = c.pick('755', '664', '0o640', '700')
    elif kind == 'spaces':
        w = c.pick('one', 'two_words')
    else:
        w = f'v{k}{c.int(0, 99)}' + c.pick('', '.txt', '_b')
    v = {'int': int, 'float': float, 'octal': lambda x: int(x, base=8), 'str.upper': str.upper,
        'str.lower': str.lower, 'Path': lambda x: ('path', x),
        'spaces': lambda x: x.replace('_', ' ')}.get(kind, str)(w)
    if choices is not None and kind in ('str.upper', 'str.lower') and c.chance(.5):
        w = w.swapcase()
    return w, v


def line(c, o, flag=None):
    """(words of the command line, values of the parameters, length of the loop)"""
    flags, action, kind, number, choices, params = o
    flag = flag or c.pick(flags)
    if action in ('StoreTrue', 'StoreFalse'):
        return [flag], action == 'StoreTrue'
    if action == 'Count':
        n = c.int(1, 2)
        return ([flag]*n if flag.startswith('--') or c.chance(.5) else
            ['-'+flag[1:]*n]), n
    n = number if isinstance(number, int) else c.int(1, 3) if number in ('+', '*') else 1
    w, v = zip(*[text(c, kind, choices, k) for k in range(n)])
    if number is None and flag.startswith('--') and c.chance(.3):
        return [f'{flag}={w[0]}'], v[0]
    if number is None and not flag.startswith('--') and len(flag) == 2 and \
            not w[0].startswith(('-', '=')) and c.chance(.2):
        return [flag+w[0]], v[0]
    return [flag, *w], (list(v) if isinstance(number, int) or number in ('+', '*') else v[0])


def split(p):
    """positional words and required options of a program"""
    words, at = [], None
    opts = {}
    for w in p['required']:
        if w.startswith('--'):
            at = w
            opts[at] = [w]
        elif at:
            opts[at].append(w)
        else:
            words.append(w)
    return words, opts


def command(c, p, chosen, flag=None):
    """command line with the chosen options, and the calls it asks for"""
    words, need = split(p)
    want = dict(p['values'])
    loop, values = p['loop']
    parts, level, log = [], 0, False
    for o in chosen:
        w, v = line(c, o, flag)
        parts.append(w)
        for group in p['exclusive']:
            if o[0][0] in group:
                for other in group:
                    if other in need and other != o[0][0]:
                        del need[other]
                        for q in p['options']:
                            if q[0][0] == other:
                                want.update({x: None for x in q[5]})
        need.pop(o[0][0], None)
        if o[1] == 'Count':
            level = v
        if o[0][0] == '--log' and not o[5]:
            log = True
        for x in o[5]:
            if x == loop:
                values = v
            want[x] = v
    parts += list(need.values())
    parts = [parts[i] for i in c.rng.permutation(len(parts))]
    argv = words[:]
    for w in parts:
        if p['files'] and c.chance(.3):
            path = os.path.join(c.scratch(), f'arguments{len(argv)}.txt')
            with open(path, 'w') as f:
                f.write(c.pick('', '# a comment\n', '\n'))
                f.write(c.pick(' ', '\n').join(w)+c.pick('', ' # remark', '\n')+'\n')
            argv.append(p['files']+path)
        else:
            argv += w
    calls = [dict(want, **{loop: v}) for v in values] if loop else [want]
    return argv, calls, level, log


def compare(c, name, run, calls, argv):
    if isinstance(run.error, Exception) and run.calls:
        raise run.error
    c.ok(run.error is None and not run.errors, 'accepted', f'{name} {argv}: '
        f'{run.error} {run.errors[-1:]}')
    c.eq(len(run.calls), len(calls), 'calls', f'{name} {argv}: number of calls')
    for got, want in zip(run.calls, calls):
        for k, v in want.items():
            # parameters may be renamed
            if k in got:
                c.ok(type(got[k]) is type(v) and got[k] == v or got[k] == v and
                    not isinstance(v, bool) and not isinstance(got[k], bool), 'value',
                    f'{name} {" ".join(argv)}: {k} is {got[k]!r:.120}, expected {v!r:.120}')


def options(p):
    return [o for o in p['options'] if o[0][0] not in ('--help',)]


@check.section('defaults', quick=len(NAMES), thorough=len(NAMES))
def defaults(c):
    name = c.cycle(NAMES)
    p = PROGRAMS[name]
    c.note(program=name)
    argv, calls, level, log = command(c, dict(p, files=None), [])
    run = Run(c, name, argv)
    compare(c, name, run, calls, argv)
    if run.level is not None:
        c.eq(run.level, logging.CRITICAL, 'verbosity')
    c.eq(run.logs, [], 'no-log')


@check.section('options', quick=8*len(NAMES), thorough=200*len(NAMES))
def many(c):
    name = c.cycle(NAMES)
    p = PROGRAMS[name]
    own = options(p)
    k = min(len(own), c.pick(1, 2, 4, 8, len(own)))
    chosen = []
    for i in c.rng.permutation(len(own))[:k]:
        if not any(own[i][0][0] in e and o[0][0] in e for e in p['exclusive'] for o in chosen):
            chosen.append(own[i])
    argv, calls, level, log = command(c, p, chosen)
    c.note(program=name, argv=argv)
    run = Run(c, name, argv)
    compare(c, name, run, calls, argv)
    if run.level is not None and any(o[1] == 'Count' for o in own):
        c.eq(run.level, LEVELS[level], 'verbosity', f'{name}: level of the messages')
    if log and hasattr(prog.load(name), 'output_log_file'):
        c.eq([x for x, _ in run.logs], ['output_log_file'], 'log', f'{name}: log files')
        a = run.logs[0][1]
        c.ok(any(x is run.files for x in a), 'log-files', f'{name}: files in the log')
    else:
        c.eq(run.logs, [], 'no-log', f'{name}: log files')


@check.section('each', quick=len(NAMES), thorough=20*len(NAMES))
def each(c):
    """every option of a program alone, with all spellings"""
    name = c.cycle(NAMES)
    p = PROGRAMS[name]
    c.note(program=name)
    for o in options(p):
        for flag in o[0]:
            argv, calls, level, log = command(c, p, [o], flag)
            run = Run(c, name, argv)
            compare(c, name, run, calls, argv)


@check.section('choices', quick=len(NAMES), thorough=5*len(NAMES))
def choices(c):
    """all listed values are accepted, others and malformed ones are not"""
    name = c.cycle(NAMES)
    p = PROGRAMS[name]
    c.note(program=name)
    for o in options(p):
        if o[4] is not None:
            for v in o[4]:
                argv, calls, *_ = command(c, dict(p, files=None), [(*o[:4], [v], o[5])])
                run = Run(c, name, argv)
                compare(c, name, run, calls, argv)
        if o[4] is None and o[2] not in ('int', 'float', 'octal') or \
                o[1] != 'Store':
            continue
        argv, *_ = command(c, dict(p, files=None), [(*o[:2], 'str', o[3], ['zq9x'], o[5])])
        run = Run(c, name, argv)
        c.ok(not run.calls and str(run.error).startswith('exit 2'), 'rejected',
            f'{name} {argv}: {run.error}')


@check.section('credentials', quick=40, thorough=800)
def credentials(c):
    """the login of the PO.DAAC program is the one that was given"""
    name = 'podaac_cumulus'
    p = PROGRAMS[name]
    user, password, netrc = (f'{x}{c.int(0, 99)}' if c.chance(.6) else None
        for x in ('user', 'word', 'file'))
    where = c.pick('s3', 'data', None)
    timeout = c.int(1, 500) if c.chance(.5) else None
    parts = [w for w in (user and [c.pick('--user', '-U'), user],
        password and [c.pick('--password', '-W'), password],
        netrc and [c.pick('--netrc', '-N'), netrc],
        where and [c.pick('--endpoint', '-e'), where],
        timeout and [c.pick('--timeout', '-t'), str(timeout)]) if w]
    argv = [w for i in c.rng.permutation(len(parts)) for w in parts[i]]
    c.note(argv=argv)
    for k in ('EARTHDATA_USERNAME', 'EARTHDATA_PASSWORD'):
        c.ok(k not in os.environ, 'environment')
    run = Run(c, name, argv)
    c.ok(run.error is None, 'accepted', f'{argv}: {run.error}')
    login = [d for n, d in run.asked if n == 'attempt_login']
    c.eq(len(login), 1, 'login')
    for k, v in (('username', user), ('password', password)):
        c.eq(login[0].get(k), v, 'credentials', f'{argv}: {k}')
    if netrc:
        c.eq(str(login[0].get('netrc')), netrc, 'netrc', f'{argv}')
    client = [d for n, d in run.asked if n == 's3_client']
    s3 = where != 'data'
    c.eq(len(client), int(s3), 'client', f'{argv}: clients')
    c.eq(run.calls[0].get('client'), 'a s3_client' if s3 else None, 'client', f'{argv}')
    c.eq(run.calls[0].get('ENDPOINT'), where or 's3', 'endpoint')
    if timeout:
        c.eq(run.calls[0].get('TIMEOUT'), timeout, 'timeout')
        for d in client:
            c.eq(d.get('timeout'), timeout, 'timeout', f'{argv}: of the client')
    for d in login:
        c.eq(d.get('authorization_header', True), s3, 'header', f'{argv}')


@check.section('mask', quick=len(MASKED), thorough=len(MASKED))
def mask(c):
    """the land-sea mask of maps"""
    name = c.cycle(MASKED)
    argv = [*PROGRAMS[name]['required'], '--mask', 'mask.nc']
    c.note(program=name, argv=argv)
    run = Run(c, name, argv)
    c.ok(run.error is None, 'accepted', f'{argv}: {run.error}')
    if 'MASK' in run.calls[0]:
        c.ok(run.calls[0]['MASK'] == ('path', 'mask.nc'), 'mask',
            f'{name}: --mask is not used (MASK is {run.calls[0]["MASK"]})')


@check.section('failure', quick=len(NAMES), thorough=4*len(NAMES))
def failure(c):
    """a calculation that fails does not pass for one that succeeded"""
    name = c.cycle(NAMES)
    p = PROGRAMS[name]
    own = options(p)
    chosen = [o for o in own if o[0][0] == '--log' and not o[5] and c.chance(.7)]
    argv, calls, level, log = command(c, p, chosen)
    c.note(program=name, argv=argv)
    run = Run(c, name, argv, fail=True)
    c.ok(len(run.calls) == 1, 'called')
    c.ok(isinstance(run.error, Failure) or run.error is None and
        any('stopped' in x for x in run.errors), 'reported',
        f'{name}: {run.error!r}, {run.errors}')
    has = hasattr(prog.load(name), 'output_error_log_file')
    c.eq([x for x, _ in run.logs], ['output_error_log_file'] if log and has else [],
        'error-log', f'{name}: log files')


if __name__ == '__main__':
    check.main()
