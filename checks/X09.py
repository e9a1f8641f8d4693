"""X09: logs of program runs account for what happened."""
import contextlib
import os
import pathlib
import re
import time

import gravity_toolkit as g
from rv.core import Check, Case, Skip
from rv import prog
from checks import X01, X02, X03, X04, X06, X07

check = Check('X09', 'each case prepares the inputs of a program as the check of '
    'its results does, runs it with --log while a monitor compares the tree of '
    'files before and after, again in the same process, without --log, and with '
    'an injected failure, and compares the log with the parsed arguments, the '
    'files that appeared and the failure', [])


class Done(BaseException):
    pass


PROGRAMS = {'grace_spatial_maps': (X01, X01.monthly, 'GRACE_processing'),
    'grace_spatial_error': (X01, X01.errors, 'GRACE_error'),
    'scale_grace_maps': (X01, X01.scaled, 'scale_GRACE_maps'),
    'grace_mean_harmonics': (X02, X02.mean, 'GRACE_mean'),
    'regress_grace_maps': (X02, X02.regress, 'GRACE_processing'),
    'piecewise_grace_maps': (X02, X02.piecewise, 'GRACE_processing'),
    'calc_mascon': (X03, X03.mascons, 'calc_mascon'),
    'calc_sensitivity_kernel': (X03, X03.kernels, 'calc_skernel'),
    'dealiasing_global_uplift': (X04, X04.uplift, 'aod1b_spatial'),
    'calc_degree_one': (X06, X06.inversion, 'calc_degree_one'),
    'monte_carlo_degree_one': (X06, X06.sampled, 'monte_carlo_degree_one'),
    'grace_raster_grids': (X07, X07.raster, 'GRACE_processing')}


def tree(base):
    out = {}
    for d, _, files in os.walk(base):
        for f in files:
            p = os.path.join(d, f)
            s = os.lstat(p)
            out[p] = (s.st_mtime_ns, s.st_size, s.st_ino)
    return out


def changed(a, b):
    return {p for p in b if a.get(p) != b[p]}


def content(path):
    with open(path, encoding='utf8') as f:
        return f.read()


def named(kind, failed):
    day = [time.strftime('%Y-%m-%d', time.localtime(time.time()+s)) for s in (-60, 0)]
    return re.compile('%s_%srun_(%s)_PID-%d(_\\d+)?\\.log$' % (re.escape(kind),
        'failed_' if failed else '', '|'.join(day), os.getpid()))


def sections(text):
    """lines of the log after each heading"""
    out, k = {}, None
    for line in text.split('\n'):
        m = re.search(r'(ARGUMENTS|NUMBER OF ITERATIONS|OUTPUT FILES?|TRACEBACK ERROR):', line)
        if m and not re.search(r'\w+: .*\b'+m.group(1), line):
            k = m.group(1)
            out[k] = [line[m.end():]]
        elif k:
            out[k].append(line)
    return out


def parsed(name, argv):
    mod = prog.load(name)
    with prog.arguments(name, argv):
        return vars(mod.arguments().parse_known_args()[0])


def accounted(c, name, argv, text):
    """every argument with its value"""
    s = sections(text)
    c.ok('ARGUMENTS' in s, 'arguments')
    seen = {}
    for line in s['ARGUMENTS']:
        m = re.match(r'(?:[A-Z]+:\w+:)?(\w+): (.*)$', line)
        if m:
            seen[m.group(1)] = m.group(2)
    c.eq(seen, {k: str(v) for k, v in parsed(name, argv).items()}, 'argument-values')
    return s


class Fault(OSError):
    pass


@contextlib.contextmanager
def fault(after):
    """the storage fails when something is written for the nth time"""
    n = [0]
    saved = []

    def wrap(cls, attr):
        fn = getattr(cls, attr)
        saved.append((cls, attr, fn))

        def stop(*a, **kw):
            n[0] += 1
            if n[0] > after:
                raise Fault('no space left on the device of the test')
            return fn(*a, **kw)
        setattr(cls, attr, stop)
    for cls in (g.harmonics, g.spatial):
        for attr in ('to_ascii', 'to_netCDF4', 'to_HDF5'):
            wrap(cls, attr)
    wrap(pathlib.Path, 'chmod')
    try:
        yield n
    finally:
        for cls, attr, fn in saved:
            setattr(cls, attr, fn)


def observe(c, name, argv, base, kind):
    c.check.events[name] += 1
    c.note(program=name)
    argv = [str(a) for a in argv]
    before = tree(base)
    r = prog.attempt(name, argv, real=True)
    if r.failed:
        raise Skip
    after = tree(base)
    quiet = changed(before, after)
    c.ok(not [p for p in quiet if p.endswith('.log')], 'no-log-unless-asked')
    time.sleep(.01)
    # the same run with its log
    logs = []
    for k in range(c.pick(1, 2, 3)):
        before = tree(base)
        old = {p: content(p) for p in logs}
        r = prog.attempt(name, argv+['--log'], real=True)
        c.ok(not r.failed, 'completes', (r.errors or [''])[-1][-600:])
        after = tree(base)
        new = changed(before, after)
        found = [p for p in new if p.endswith('.log')]
        c.eq(len(found), 1, 'one-log')
        c.ok(named(kind, False).search(os.path.basename(found[0])) is not None,
            'name', found[0])
        for p in logs:
            c.ok(p in after and content(p) == old[p], 'earlier-logs-kept')
        logs += found
        s = accounted(c, name, argv+['--log'], content(found[0]))
        c.ok('TRACEBACK ERROR' not in s, 'no-failure')
        key = 'OUTPUT FILES' if 'OUTPUT FILES' in s else 'OUTPUT FILE'
        c.ok(key in s, 'outputs')
        lines = [re.sub(r'^[A-Z]+:\w+:', '', x) for x in s[key] if x.strip()]
        c.ok(all(os.path.exists(x) for x in lines), 'outputs-exist', str(lines)[:600])
        got = {os.path.abspath(x) for x in lines}
        c.eq(sorted(new-set(found)-got), [], 'all-outputs')
        c.ok(got <= set(after), 'outputs-inside')
        # a program is free not to write again what is there already
        c.eq(sorted(got-(new | quiet)), [], 'only-outputs')
        if name == 'calc_degree_one' and '--iterative' in argv or \
                name == 'monte_carlo_degree_one':
            c.ok(re.fullmatch(r' \d+', s['NUMBER OF ITERATIONS'][0]) is not None, 'iterations')
            if name == 'monte_carlo_degree_one':
                c.eq(int(s['NUMBER OF ITERATIONS'][0]), parsed(name, argv)['runs'],
                    'iterations')
    # a failure at some write
    before = tree(base)
    k = c.int(0, 3)
    with fault(k) as n:
        r = prog.attempt(name, argv+['--log'], real=True)
    c.eq(r.failed, n[0] > k, 'failure-noticed')
    if not r.failed:
        return
    after = tree(base)
    found = [p for p in changed(before, after) if p.endswith('.log')]
    c.eq(len(found), 1, 'one-failure-log')
    c.ok(named(kind, True).search(os.path.basename(found[0])) is not None,
        'failure-name', found[0])
    text = content(found[0])
    s = accounted(c, name, argv+['--log'], text)
    c.ok('TRACEBACK ERROR' in s, 'failure-heading')
    c.ok(not any(k.startswith('OUTPUT') for k in s), 'failure-outputs')
    tail = '\n'.join(s['TRACEBACK ERROR'])
    c.ok('Traceback (most recent call last)' in tail and
        'Fault: no space left on the device of the test' in tail and
        f'{name}.py' in tail, 'failure-traceback', tail[-500:])
    c.check.observed['logs:failures'] += 1


def drive(c, name):
    module, case, kind = PROGRAMS[name]
    module.check.seed, module.check.tier = c.check.seed, c.check.tier
    sub = Case(module.check, f'log-{name}', c.index)
    c.tmp = sub.scratch()
    run = prog.run

    def once(other, program, argv, *a, **kw):
        if program != name:
            return run(other, program, argv, *a, **kw)
        observe(c, name, argv, os.path.realpath(c.tmp), kind)
        raise Done
    prog.run = once
    try:
        case(sub)
    except Done:
        pass
    finally:
        prog.run = run


def register(name, quick, thorough):
    @check.section(name.replace('_', '-'), quick=quick, thorough=thorough)
    def section(c):
        drive(c, name)


for _name in PROGRAMS:
    register(_name, 2 if _name == 'dealiasing_global_uplift' else 6, 60)


if __name__ == '__main__':
    check.main()
