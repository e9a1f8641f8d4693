"""runs the command-line programs of the repository in this process

A program is loaded from the scripts folder beside the monitored package and
its main() is driven with an argument list; records logged as errors (the
programs turn every exception into one) are observed as failures.
"""
import contextlib
import importlib.util
import io
import logging
import os
import sys

import gravity_toolkit as g
from rv.core import OracleFailure

SCRIPTS = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(g.__file__))), 'scripts')
_loaded = {}


def load(name):
    """program as a module"""
    if name not in _loaded:
        path = os.path.join(SCRIPTS, f'{name}.py')
        spec = importlib.util.spec_from_file_location(f'rv_prog_{name}', path)
        mod = importlib.util.module_from_spec(spec)
        # keep the logging configuration of the process
        state = logging.root.handlers[:], logging.root.level
        spec.loader.exec_module(mod)
        logging.root.handlers[:], logging.root.level = state
        _loaded[name] = mod
    return _loaded[name]


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.errors, self.lines = [], []

    def emit(self, record):
        text = record.getMessage()
        self.lines.append(text)
        if record.levelno >= logging.ERROR:
            self.errors.append(text)


@contextlib.contextmanager
def arguments(name, argv):
    old = sys.argv
    sys.argv = [os.path.join(SCRIPTS, f'{name}.py')] + [str(a) for a in argv]
    try:
        yield
    finally:
        sys.argv = old


class Outcome:
    def __init__(self, errors, lines, out, err=''):
        self.errors, self.lines, self.out, self.err = errors, lines, out, err
        self.failed = bool(errors)


def attempt(name, argv, cwd=None, real=False):
    """runs a program, returns what it logged and printed; with real, its own
    logging configuration takes effect (in files and on the captured
    stderr)"""
    mod = load(name)
    rec = Records()
    root = logging.root
    state = root.handlers[:], root.level
    disabled = root.manager.disable
    logging.disable(logging.NOTSET)
    root.handlers[:] = [] if real else [rec]
    if real:
        tap = lambda record: rec.emit(record) or True
        root.addFilter(tap)
    # the verbosity of the program is set by its own basicConfig, which does
    # nothing here: take everything that is not a debug message
    root.setLevel(logging.WARNING if real else logging.INFO)
    here = os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    try:
        if cwd is not None:
            os.chdir(cwd)
        with arguments(name, argv), contextlib.redirect_stdout(out), \
                contextlib.redirect_stderr(err):
            try:
                mod.main()
            except SystemExit as e:
                if e.code:
                    rec.errors.append(f'exit {e.code}: {err.getvalue()}')
    finally:
        if real:
            root.removeFilter(tap)
            for h in root.handlers:
                h.close()
        root.handlers[:], root.level = state
        logging.disable(disabled)
        os.chdir(here)
        plt = sys.modules.get('matplotlib.pyplot')
        if plt is not None:
            # a program of its own has no figures at first
            plt.close('all')
    return Outcome(rec.errors, rec.lines, out.getvalue(), err.getvalue())


def run(c, name, argv, key='completes', cwd=None, real=False):
    """runs a program that has to complete"""
    c.check.events[name] += 1
    r = attempt(name, argv, cwd=cwd, real=real)
    c.nobs += 1
    c.check.observed[f'{c.section}:{key}'] += 1
    if r.failed:
        raise OracleFailure(key, f'{name}: ' + r.errors[-1][-1200:],
            {'argv': [str(a) for a in argv][:60]})
    return r
