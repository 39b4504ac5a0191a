"""Framework: cases, oracle assertions, workers, evidence, known findings, replay."""
import hashlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
if SRC not in sys.path:
    sys.path.insert(0, SRC)

import numpy as np  # noqa: E402

PENDING = []  # violations noticed by the hooks of instr.py inside library code
CASE_LIMIT = 150  # seconds after which one case counts as not terminating (cases take milliseconds)


class Violation(Exception):
    """An observed execution contradicts the property."""


class NonTermination(BaseException):
    pass


class Skip(Exception):
    """The generated case lies outside the domain of the property (ill-conditioned...)."""


def known_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)['known']


def arr(m, what='result', complex_ok=False):
    """The contents of a Matrix as an array, with the representation invariants asserted."""
    from wai.ma.core.matrix import Matrix
    if not isinstance(m, Matrix):
        raise Violation(f'{what}: expected a Matrix, got {type(m).__name__}')
    d = m.data
    if not isinstance(d, np.ndarray) or d.ndim != 2:
        raise Violation(f'{what}: Matrix does not hold a 2-dimensional array')
    if np.iscomplexobj(d) and not complex_ok:
        raise Violation(f'{what}: complex matrix where a real one is due')
    return d


class Case:
    """One execution: random choices, oracle assertions, and what the monitors saw."""

    def __init__(self, prop, scenario, index, seed, tier, known_ids):
        self.prop, self.scenario, self.index, self.tier = prop, scenario, index, tier
        key = hashlib.sha256(f'{seed}/{prop}/{scenario}/{index}'.encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(key[:8], 'little'))
        self.events = {}
        self.sigs = set()
        self.knowns = {}
        self.samples = []
        self.checks = 0
        self._known_ids = known_ids
        self.notes = {}

    # --- random choices -------------------------------------------------
    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))

    def pick(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def uni(self, lo, hi):
        return float(self.rng.uniform(lo, hi))

    def perm(self, n):
        return [int(i) for i in self.rng.permutation(n)]

    # --- observations ---------------------------------------------------
    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def sig(self, *parts):
        h = hashlib.blake2b(digest_size=8)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(str(p.shape).encode())
                h.update(np.ascontiguousarray(p).tobytes())
            else:
                h.update(repr(p).encode())
        self.sigs.add(h.digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def known(self, kf, detail=''):
        if kf not in self._known_ids:
            raise Violation(f'matches finding {kf}, which is not listed for {self.prop}: {detail}')
        self.knowns[kf] = self.knowns.get(kf, 0) + 1

    # --- oracle ---------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def ok(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg)

    def shape(self, m, rows, cols, what='result', complex_ok=False):
        d = arr(m, what, complex_ok)
        self.checks += 1
        if d.shape != (rows, cols):
            raise Violation(f'{what}: shape {d.shape}, expected {(rows, cols)}')
        return d

    def same(self, m, expected, what='result'):
        """Bit-for-bit up to the sign of zero; NaN equals NaN."""
        d = arr(m, what) if not isinstance(m, np.ndarray) else m
        e = np.asarray(expected, dtype=float)
        if e.ndim < 2:
            e = np.atleast_2d(e)
        self.checks += 1
        if d.shape != e.shape:
            raise Violation(f'{what}: shape {d.shape}, expected {e.shape}')
        if not np.array_equal(d, e, equal_nan=True):
            raise Violation(f'{what}: {brief(d)} expected {brief(e)}')
        return d

    def close(self, m, expected, what='result', tol=1e-9, scale=None):
        """max |m - expected| <= tol * scale, the scale being that of the expectation by default."""
        d = arr(m, what) if not isinstance(m, np.ndarray) else m
        e = np.asarray(expected)
        if e.ndim < 2:
            e = np.atleast_2d(e)
        self.checks += 1
        if d.shape != e.shape:
            raise Violation(f'{what}: shape {d.shape}, expected {e.shape}')
        if not is_close(d, e, tol, scale):
            raise Violation(f'{what}: {brief(d)} expected {brief(e)} (max diff {maxdiff(d, e):.3g})')
        return d

    def elem(self, m, expected, what='result', rtol=1e-12):
        """Every cell equal up to rounding of that cell; NaN and infinities exactly where expected."""
        d = arr(m, what) if not isinstance(m, np.ndarray) else m
        e = np.asarray(expected, dtype=float)
        if e.ndim < 2:
            e = np.atleast_2d(e)
        self.checks += 1
        if d.shape != e.shape:
            raise Violation(f'{what}: shape {d.shape}, expected {e.shape}')
        with np.errstate(all='ignore'):
            bad = ~((d == e) | (np.isnan(d) & np.isnan(e)) | (np.abs(d - e) <= rtol * np.abs(e)))
            bad |= np.isinf(e) & (d != e)
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(f'{what}: cell {i} of {d.shape} is {d[i]!r}, expected {e[i]!r}; {brief(d)} vs {brief(e)}')
        return d

    def scalar(self, x, expected, what='result', tol=1e-9, scale=None):
        from wai.ma.core.matrix import Matrix
        self.checks += 1
        if isinstance(x, Matrix) or np.ndim(x) != 0 or isinstance(x, (str, bytes)) or x is None:
            raise Violation(f'{what}: expected a number, got {type(x).__name__}')
        if np.iscomplexobj(x):
            raise Violation(f'{what}: complex number')
        if not is_close(np.array([[float(x)]]), np.array([[float(expected)]]), tol, scale):
            raise Violation(f'{what}: {x!r} expected {expected!r}')

    def refused(self, fn, what):
        """fn must raise some Exception rather than answer."""
        self.checks += 1
        self.ev('refusal')
        try:
            r = fn()
        except NonTermination:
            raise
        except Exception:
            return
        raise Violation(f'{what}: answered {brief(r)} instead of refusing')

    def call(self, what, fn, *a, **k):
        """A call that has to succeed."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except Exception as e:
            raise Violation(f'{what}: raised {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-6))


def is_close(d, e, tol, scale=None):
    if d.shape != e.shape:
        return False
    if d.size == 0:
        return True
    nan_d, nan_e = np.isnan(d), np.isnan(e)
    if not np.array_equal(nan_d, nan_e):
        return False
    fin = np.isfinite(e)
    if not np.array_equal(np.isfinite(d), fin):
        return False
    inf = ~fin & ~nan_e
    if inf.any() and not np.array_equal(d[inf], e[inf]):
        return False
    if not fin.any():
        return True
    if scale is None:
        scale = np.abs(e[fin]).max()
    with np.errstate(all='ignore'):
        diff = np.abs(d[fin] - e[fin]).max()
    return bool(diff <= tol * scale or diff == 0)


def maxdiff(d, e):
    try:
        with np.errstate(all='ignore'):
            return float(np.nanmax(np.abs(d - e)))
    except Exception:
        return float('nan')


def brief(x):
    from wai.ma.core.matrix import Matrix
    if isinstance(x, Matrix):
        x = x.data
    if isinstance(x, np.ndarray):
        s = np.array2string(x, threshold=24, edgeitems=3, precision=8)
        return f'{x.shape}{s}'
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'


def _alarm(*_):
    raise NonTermination()


def run_case(mod, prop, name, fn, index, seed, tier, known_ids):
    """Runs one case; returns (case, None | message)."""
    case = Case(prop, name, index, seed, tier, known_ids)
    PENDING.clear()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                fn(case)
            if PENDING:
                return case, 'monitor: ' + PENDING[0]
            return case, None
        finally:
            signal.alarm(0)
    except Skip:
        case.ev('outside the domain')
        return case, ('monitor: ' + PENDING[0]) if PENDING else None
    except Violation as v:
        return case, str(v) + (' | monitor: ' + PENDING[0] if PENDING else '')
    except NonTermination:
        return case, f'no answer after {CASE_LIMIT} s: ' + traceback.format_exc(limit=-4)
    except Exception as e:
        return case, f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-8)


def _worker(mod, prop, plan, w, workers, seed, tier, deadline, known_ids, out):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    if hasattr(mod, 'worker_init'):
        mod.worker_init()
    ev, knowns, sigs, samples = {}, {}, {}, []
    per = {}
    violations = []
    checks = 0
    cut = False
    for name, fn, count in plan:
        for i in range(w, count, workers):
            if time.time() > deadline:
                cut = True
                break
            case, msg = run_case(mod, prop, name, fn, i, seed, tier, known_ids)
            per[name] = per.get(name, 0) + 1
            checks += case.checks
            for k, v in case.events.items():
                ev[k] = ev.get(k, 0) + v
            for k, v in case.knowns.items():
                knowns[k] = knowns.get(k, 0) + v
            sigs.setdefault(name, set()).update(case.sigs)
            if len([s for s in samples if s['scenario'] == name]) < 1 and case.samples:
                samples.append({'scenario': name, 'index': i, 'case': case.samples[0]})
            if msg is not None:
                violations.append({'scenario': name, 'index': i, 'message': msg})
                break
        if violations or cut:
            break
    monitors = mod.worker_report() if hasattr(mod, 'worker_report') else {}
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(dict(ev=ev, knowns=knowns, sigs=sigs, samples=samples, per=per, violations=violations,
                         checks=checks, cut=cut, monitors=monitors), f)
    os.rename(out + '.tmp', out)


def run_workers(mod, prop, plan, seed, tier, budget, known_ids, workers):
    tmp = tempfile.mkdtemp(prefix='verif-')
    deadline = time.time() + budget
    results = []
    try:
        pending = list(range(workers))
        for attempt in range(2):
            pids = {}
            for w in pending:
                out = os.path.join(tmp, str(w))
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        _worker(mod, prop, plan, w, workers, seed, tier, deadline, known_ids, out)
                        code = 0
                    except BaseException:
                        with open(out + '.err', 'w') as f:
                            f.write(traceback.format_exc())
                    finally:
                        os._exit(code)
                pids[pid] = w
            for pid in pids:
                os.waitpid(pid, 0)
            pending = [w for w in pending if not os.path.exists(os.path.join(tmp, str(w)))]
            if not pending:
                break
        for w in range(workers):
            path = os.path.join(tmp, str(w))
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results.append(pickle.load(f))
        dead = []
        for w in pending:
            err = os.path.join(tmp, f'{w}.err')
            dead.append(open(err).read() if os.path.exists(err) else 'the interpreter died')
        return results, dead
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
