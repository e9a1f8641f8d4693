"""Runtime-verification core: cases, oracles, verdicts, evidence and replays.

A check is a list of *sections*.  A section drives the real code of
/repo/gravity_toolkit under a generated workload (one *case* per call) while
oracles observe what it does.  Verdicts are three valued:

* violated      an oracle rejected an observation that known_findings.json
                does not list                                   -> exit 1
* held          every observation accepted, every section observed enough
                                                               -> exit 0
* inconclusive  a section observed nothing                      -> exit 2
"""
import collections
import contextlib
import hashlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class OracleFailure(Exception):
    def __init__(self, key, message, witness=None):
        super().__init__(message)
        self.key, self.message, self.witness = key, message, witness


class Skip(Exception):
    """the generated case is outside the property's quantifier"""


def brief(x, n=6):
    """compact, JSON-able description of a witness value"""
    if isinstance(x, np.ma.MaskedArray):
        return {'masked': brief(np.ma.getdata(x)),
                'nmask': int(np.ma.getmaskarray(x).sum())}
    if isinstance(x, np.ndarray):
        if x.size <= 2*n:
            return np.asarray(x).tolist() if x.dtype.kind in 'fiub' else str(x)
        return {'shape': list(x.shape),
                'head': [str(v) for v in x.ravel()[:n]]}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): brief(v, n) for k, v in list(x.items())[:12]}
    if isinstance(x, (list, tuple)):
        return [brief(v, n) for v in x[:12]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)[:200]


def jsonable(x):
    x = brief(x)
    if isinstance(x, float) and not np.isfinite(x):
        return str(x)
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [jsonable(v) for v in x]
    return x


class Case:
    """one driven execution, with the observations made on it"""
    def __init__(self, check, section, index):
        self.check, self.section, self.index = check, section, index
        self.rng = np.random.default_rng(
            [check.seed, zlib.crc32(section.encode()), index])
        self.tier = check.tier
        self.quick = (check.tier == 'quick')
        self.params = {}
        self.tmp = None
        self.nobs = 0
        self.trivial = False

    # -- generation helpers
    def note(self, **kw):
        self.params.update(kw)

    def pick(self, *options):
        """choose from options (uniformly)"""
        if len(options) == 1 and isinstance(options[0], (list, tuple)):
            options = options[0]
        return options[int(self.rng.integers(len(options)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """integer in lo..hi inclusive"""
        return int(self.rng.integers(lo, hi+1))

    def cycle(self, *options):
        """walk through the options with the case index (full coverage)"""
        if len(options) == 1 and isinstance(options[0], (list, tuple)):
            options = options[0]
        return options[self.index % len(options)]

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='rv-')
        return self.tmp

    # -- oracles
    def ok(self, cond, key, message='', **witness):
        self.nobs += 1
        self.check.observed[f'{self.section}:{key}'] += 1
        if not bool(cond):
            raise OracleFailure(key, message or key, witness)

    def eq(self, got, want, key, message='', **witness):
        self.ok(got == want, key,
            f'{message or key}: observed {got!r:.200}, expected {want!r:.200}',
            **witness)

    def close(self, got, want, key, rtol=1e-9, atol=0.0, message='', **witness):
        """element-wise agreement of shape and value"""
        self.nobs += 1
        self.check.observed[f'{self.section}:{key}'] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise OracleFailure(key, f'{message or key}: shape {g.shape}, '
                f'expected {w.shape}', witness)
        if g.size == 0:
            return
        g, w = g.astype(complex), w.astype(complex)
        bad = ~(np.abs(g - w) <= atol + rtol*np.abs(w))
        bad &= ~(np.isnan(g) & np.isnan(w))
        bad &= ~(g == w)
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad)) if bad.ndim else ()
            err = np.abs(g - w)[bad]
            witness = dict(witness, at=list(i), observed=str(g[i]),
                expected=str(w[i]), nbad=int(bad.sum()), size=int(bad.size))
            raise OracleFailure(key, f'{message or key}: {int(bad.sum())} of '
                f'{bad.size} values differ (max error {np.nanmax(err) if err.size else 0:.3g}; '
                f'at {i}: observed {g[i]:.12g}, expected {w[i]:.12g})', witness)

    def near(self, got, want, key, tol=1e-9, message='', **witness):
        """agreement relative to the largest expected magnitude"""
        w = np.asarray(want)
        fin = np.abs(w[np.isfinite(w)]) if w.size else np.zeros(0)
        scale = float(fin.max()) if fin.size else 0.0
        self.close(got, want, key, rtol=0.0, atol=tol*scale + 1e-300,
            message=message, **witness)

    def raises(self, exc, key, fn, *a, **kw):
        self.nobs += 1
        self.check.observed[f'{self.section}:{key}'] += 1
        try:
            fn(*a, **kw)
        except exc:
            return
        except Exception as e:
            raise OracleFailure(key, f'{key}: raised {e!r}') from e
        raise OracleFailure(key, f'{key}: expected an exception, none raised')


class Reach:
    """which functions and lines of the package the workload drove
    (sys.monitoring; every line is reported once, then disabled)"""
    def __init__(self):
        import gravity_toolkit
        self.root = os.path.dirname(gravity_toolkit.__file__) + os.sep
        self.prog = os.path.join(os.path.dirname(os.path.dirname(
            gravity_toolkit.__file__)), 'scripts') + os.sep
        self.lines = collections.defaultdict(set)
        self.functions = set()
        mon = self.mon = sys.monitoring
        self.tool = mon.PROFILER_ID
        mon.use_tool_id(self.tool, 'rv-reach')
        mon.register_callback(self.tool, mon.events.LINE, self.line)
        mon.register_callback(self.tool, mon.events.PY_START, self.start)
        mon.set_events(self.tool, mon.events.LINE | mon.events.PY_START)

    def line(self, code, number):
        f = code.co_filename
        if f.startswith(self.root):
            self.lines[f[len(self.root):]].add(number)
        elif f.startswith(self.prog):
            self.lines['scripts/' + f[len(self.prog):]].add(number)
        return self.mon.DISABLE

    def start(self, code, offset):
        f = code.co_filename
        if f.startswith(self.root):
            self.functions.add(f[len(self.root):] + ':' + code.co_qualname)
        elif f.startswith(self.prog):
            self.functions.add('scripts/' + f[len(self.prog):] + ':' +
                code.co_qualname)
        return self.mon.DISABLE

    def stop(self):
        self.mon.set_events(self.tool, 0)
        self.mon.free_tool_id(self.tool)
        return {'functions_entered': len(self.functions),
            'lines_executed': {k: len(v) for k, v in sorted(self.lines.items())}}


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.sections = []
        self.observed = collections.Counter()
        self.events = collections.Counter()

    def section(self, name, quick=50, thorough=None, min_obs=1):
        def deco(fn):
            self.sections.append((name, fn, quick,
                thorough if thorough is not None else quick*10, min_obs))
            return fn
        return deco

    # -- known findings: keyed by mechanism, committed, never written here
    def load_known(self):
        path = os.path.join(VERIF, 'known_findings.json')
        entries = []
        if os.path.exists(path):
            with open(path) as f:
                data = json.load(f)
            entries = [e for e in data.get('findings', [])
                if e['property'] == self.pid]
        return entries

    def matches(self, entry, section, key, text):
        return (section == entry['section'] and key == entry['key']
            and re.search(entry.get('match', ''), text, re.S) is not None)

    def main(self, argv=None):
        argv = sys.argv[1:] if argv is None else argv
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        only = None
        if '--tier' in argv:
            self.tier = argv[argv.index('--tier')+1]
        if '--replay' in argv:
            with open(argv[argv.index('--replay')+1]) as f:
                rep = json.load(f)
            self.seed, self.tier = rep['seed'], rep['tier']
            only = (rep['section'], rep['case'])
        if '--only' in argv:
            s = argv[argv.index('--only')+1].split(':')
            only = (s[0], int(s[1]) if len(s) > 1 else None)
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        budget = float(os.environ.get('RV_BUDGET',
            '200' if self.tier == 'quick' else '800'))
        soft = float(os.environ.get('RV_SOFT',
            '10' if self.tier == 'quick' else '200'))
        t0 = time.time()
        known = self.load_known()
        reach = Reach()
        hits = collections.OrderedDict()
        evaluations, distinct, samples = 0, set(), []
        per_section, violations, starved, truncated = {}, [], [], []
        wsum = sum(max(s[2 if self.tier == 'quick' else 3], 1)
            for s in self.sections)
        for name, fn, nq, nt, min_obs in self.sections:
            n = nq if self.tier == 'quick' else nt
            if only and only[0] != name:
                continue
            nobs, ncases, fails, ts = 0, 0, 0, time.time()
            share = max(20.0, 3*budget/len(self.sections))
            # cheap sections go on beyond their count until their soft share
            # of the time is used up
            more = 10*n if not only and n > 12 else n
            idx = range(more) if not only or only[1] is None else [only[1]]
            for i in idx:
                now = time.time()
                if i >= n and now - ts > soft/len(self.sections):
                    break
                if not only and i >= max(3, min_obs) and (now - t0 > budget or
                        now - ts > share):
                    truncated.append(f'{name}@{i}/{n}')
                    break
                case = Case(self, name, i)
                out = self.run_case(case, fn)
                if out == 'skip':
                    continue
                ncases += 1
                evaluations += 1
                nobs += case.nobs
                if case.nobs and not case.trivial:
                    distinct.add((name, hashlib.md5(json.dumps(
                        [jsonable(case.params), i if not case.params else 0],
                        sort_keys=True, default=str).encode()).hexdigest()))
                if i == 0 or (i == n//2 and len(samples) < 24):
                    samples.append({'section': name, 'case': i,
                        'params': jsonable(case.params),
                        'observations': case.nobs})
                if out is not None:
                    key, message, witness, tb = out
                    text = f'{message}\n{tb}\n{json.dumps(jsonable(case.params), default=str)}'
                    hit = next((e for e in known
                        if self.matches(e, name, key, text)), None)
                    if hit is not None:
                        hits.setdefault(hit['id'], [hit, 0])[1] += 1
                        continue
                    fails += 1
                    violations.append((name, i, key, message, witness, tb,
                        case.params))
                    if fails >= 3:
                        break
            per_section[name] = {'cases': ncases, 'observations': nobs,
                'wall_s': round(time.time()-ts, 2)}
            if not only and nobs < min_obs and not fails:
                starved.append(name)
        for hit, count in hits.values():
            print(f"KNOWN-FINDING: property={self.pid} [{hit['id']}] "
                f"{hit['what']} (seen {count}x)")
        nviol = len(violations)
        self.reach = reach.stop()
        if not only:
            self.write_evidence(t0, evaluations, len(distinct), samples,
                per_section, nviol, truncated, hits)
        if violations:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            for k, v in enumerate(violations[:10]):
                name, i, key, message, witness, tb, params = v
                path = os.path.join(rdir, f'{self.pid}-{k}.json')
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'seed': self.seed,
                        'tier': self.tier, 'section': name, 'case': i,
                        'oracle': key, 'message': message,
                        'witness': jsonable(witness or {}),
                        'params': jsonable(params), 'traceback': tb,
                        'replay': f'./run.sh {self.pid} --replay {path}'},
                        f, indent=1, default=str)
                print(f'VIOLATION property={self.pid} replay={path}')
                print(f'  section={name} case={i} oracle={key}: {message:.600}')
                if key == 'exception':
                    print('  ' + tb.strip().replace('\n', '\n  ')[-1500:])
            sys.stdout.flush()
            return 1
        if starved:
            print(f'INCONCLUSIVE property={self.pid}: nothing observed in '
                + ', '.join(starved))
            return 2
        print(f'HELD property={self.pid} tier={self.tier} seed={self.seed}: '
            f'{evaluations} executions, {sum(self.observed.values())} '
            f'oracle evaluations, {len(self.observed)} kinds, '
            f'{time.time()-t0:.1f}s'
            + (f' (truncated: {", ".join(truncated)})' if truncated else ''))
        return 0

    def run_case(self, case, fn):
        state = np.random.get_state()
        np.random.seed(zlib.crc32(f'{case.section}{case.index}'.encode()))
        cwd = os.getcwd()
        sink = io.StringIO()
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(sink), \
                    np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                fn(case)
            return None
        except Skip:
            return 'skip'
        except OracleFailure as e:
            return (e.key, e.message, e.witness, traceback.format_exc())
        except Exception as e:
            case.nobs += 1
            return ('exception', f'{type(e).__name__}: {e}', None,
                traceback.format_exc())
        finally:
            os.chdir(cwd)
            np.random.set_state(state)
            if case.tmp is not None:
                shutil.rmtree(case.tmp, ignore_errors=True)

    def write_evidence(self, t0, evaluations, distinct, samples, per_section,
            nviol, truncated, hits):
        path = os.path.join(VERIF, 'evidence', f'{self.pid}.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        doc = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration',
            'coverage': {'evaluations': evaluations,
                'distinct_nontrivial': distinct,
                'rule': self.rule, 'samples': samples,
                'sections': per_section,
                'oracle_evaluations': dict(sorted(self.observed.items())),
                'monitored_events': dict(sorted(self.events.items())),
                'reach': self.reach,
                'truncated': truncated,
                'known_findings_seen': {k: v[1] for k, v in hits.items()}},
            'assumptions': self.assumptions,
            'wall_s': round(time.time()-t0, 3), 'violations': nviol}
        tmp = path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        os.replace(tmp, path)


def mx(err):
    """largest magnitude (0 for nothing)"""
    err = np.abs(np.asarray(err, dtype=float))
    return float(np.nanmax(err)) if err.size else 0.0
