"""C29: user-written parts at the extension points; the monitor records every call of a hook and judges the trace."""
import io
import os
import shutil
import tempfile

import numpy as np

from wai.ma.algorithm import AbstractAlgorithm
from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH, NegEntropyApproximationFunction
from wai.ma.algorithm.pls import OPLS, PLS1, SIMPLS, KernelPLS
from wai.ma.algorithm.pls._AbstractMultiResponsePLS import AbstractMultiResponsePLS
from wai.ma.algorithm.pls._AbstractSingleResponsePLS import AbstractSingleResponsePLS
from wai.ma.core import Filter, MultiFilter, PreprocessingType, Serialisable
from wai.ma.core.error import MatrixAlgorithmsError
from wai.ma.core.matrix import Matrix
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import AbstractTransformation, Center, MultiplicativeScatterCorrection, Standardize
from wai.ma.transformation._MultiplicativeScatterCorrection import AbstractMultiplicativeScatterCorrection, RangeBased
from wai.ma.transformation.kernel import AbstractKernel, LinearKernel, PolyKernel, RBFKernel

from .. import gen, zoo
from ..common import arr

RULE = ('regressions, transformations, kernels, contrast functions, corrections, filters and serialisables written by the '
        'check on top of the abstract bases, driven through random histories; the trace of hook calls and the answers are '
        'judged by an automaton; distinct: different (part, trace, data)')
ASSUMPTIONS = ['how often a reset hook runs is not judged, only what it runs before and after',
               'data with mismatched rows are not given to user-written regressions (their own hook has to refuse them)']
PRE = list(PreprocessingType)


class Stop(Exception):
    pass


ERRORS = (Stop, KeyError, ValueError, RuntimeError, TypeError, IndexError, AttributeError, ZeroDivisionError,
          np.linalg.LinAlgError, MatrixAlgorithmsError, NotImplementedError)


def bits(m):
    return None if m is None else np.array(arr(m), copy=True)


# ---- regressions ---------------------------------------------------------------------------------------------------
class Own:
    """The user's part of a regression: keeps a log of the calls of its hooks."""

    def __init__(self):
        self.log = []
        super().__init__()
        self.knob = 1
        self.steps = ['built']
        self.script = None
        self.ready = True  # last statement of the constructor

    def initialize(self, *a):
        if not a:
            self.log.append(('initialise', getattr(self, 'ready', False)))
        return super().initialize(*a)

    def reset(self):
        self.log.append(('reset', getattr(self, 'ready', False)))
        super().reset()
        self.learned = None

    @staticmethod
    def validate_knob(value):
        return np.float64(value) > 0  # numpy's truth value

    def do_perform_initialization(self, predictors, response):
        self.log.append(('train', bits(predictors), bits(response), self.is_initialised()))
        x = arr(predictors)
        self.learned = (x.T @ x + np.eye(x.shape[1])) * self.knob, np.asarray(arr(response)).mean(0)
        predictors.data[:] = 7.5  # its copy: scribbling on it must not reach the caller
        response.data[:] = -7.5
        if isinstance(self.script, Exception):
            raise self.script
        return self.script

    def answer(self, x):
        return (np.asarray(x) @ self.learned[0])[:, :1] * np.arange(1, len(self.learned[1]) + 1) + self.learned[1]

    def do_perform_predictions(self, predictors):
        self.log.append(('predict', bits(predictors)))
        return Matrix(self.answer(arr(predictors)))

    def do_transform(self, predictors):
        self.log.append(('transform', bits(predictors)))
        return Matrix(arr(predictors) @ self.learned[0])

    def get_matrix_names(self):
        return ['G']

    def get_matrix(self, name):
        return Matrix(self.learned[0]) if name == 'G' and self.learned else None

    def has_loadings(self):
        return False

    def get_loadings(self):
        return None

    def can_predict(self):
        return True


class Single(Own, AbstractSingleResponsePLS):
    pass


class Multi(Own, AbstractMultiResponsePLS):
    LOW, HIGH = 1, -1

    def get_min_columns_response(self):
        return self.LOW

    def get_max_columns_response(self):
        return self.HIGH


class TwoOrThree(Multi):
    LOW, HIGH = 2, 3


class AtMostOne(Multi):
    LOW, HIGH = 1, 1


def stats(kind, a):
    n = a.shape[1]
    if kind is PreprocessingType.NONE:
        return np.zeros(n), np.ones(n)
    m = a.mean(0)
    return (m, np.ones(n)) if kind is PreprocessingType.CENTER else (m, a.std(0, ddof=1))


def allowed(o, q):
    if isinstance(o, Single):
        return q == 1
    return o.LOW <= q and (o.HIGH == -1 or q <= o.HIGH)


def regression(c):
    """A regression on top of the single or multi response base, through a random history."""
    cls = c.pick([Single, Single, Multi, TwoOrThree, AtMostOne])
    o = cls()
    kinds = [e[0] for e in o.log]
    c.ok('initialise' in kinds and 'reset' in kinds, f'constructing called only {kinds}')
    c.ok(all(e[1] for e in o.log), 'initialise or reset ran before the constructor had ended')
    c.ok(o.steps == ['built'] and o.knob == 1, 'the members of the constructor were lost')
    c.ok(o.num_components == 5 and o.preprocessing_type is PreprocessingType.NONE, 'defaults of the base')
    c.ok(not o.is_initialised(), 'trained from the start')
    p = c.int(1, 4)
    scale = 10.0 ** c.int(-3, 3)
    state = None
    trace = []
    for _ in range(c.int(4, 12)):
        op = c.pick(['train', 'train', 'train', 'fail', 'raise', 'bad', 'predict', 'predict', 'transform', 'set', 'wrong',
                     'pre', 'reset', 'debug', 'steps'])
        trace.append(op)
        o.log.clear()
        if op in ('train', 'fail', 'raise', 'bad'):
            n = c.int(2, 8)
            q = c.int(1, 4)
            x = scale * c.rng.normal(size=(n, p)) + c.uni(-3, 3)
            y = c.rng.normal(size=(n, q)) * scale + c.uni(-3, 3)
            mx, my = gen.plain(x.copy()), gen.plain(y.copy())
            o.script = {'train': None, 'fail': 'not today', 'raise': c.pick(ERRORS)('mine'), 'bad': None}[op]
            if op == 'bad':
                which = c.pick(['x', 'y'])
                mx, my = (None, my) if which == 'x' else (mx, None)
            fits = op != 'bad' and allowed(o, q)
            try:
                msg = o.initialize(mx, my)
                raised = None
            except Exception as e:
                msg, raised = None, e
            calls = [e for e in o.log if e[0] == 'train']
            if not fits:
                c.ok(raised is not None or isinstance(msg, str) and msg, f'{q} responses, {op}: accepted by {cls.__name__}')
                c.ok(not calls, f'{q} responses, {op}: the training hook of {cls.__name__} was called with unchecked data')
                state = None
                c.ev('data refused before the hook')
            else:
                c.ok(len(calls) == 1, f'the training hook was called {len(calls)} times')
                _, hx, hy, was = calls[0]
                c.ok(not was, 'the model said it is trained while it was training')
                (m, s), (ym, ys) = stats(o.preprocessing_type, x), stats(o.preprocessing_type, y)
                c.close(hx, (x - m) / s, 'predictors given to the hook', 1e-9)
                c.close(hy, (y - ym) / ys, 'responses given to the hook', 1e-9)
                if op == 'train':
                    c.ok(raised is None and msg is None, f'training gave {msg!r} {raised!r}')
                    state = (m, s, ym, ys, o.learned)
                elif op == 'fail':
                    c.ok(raised is None and msg == 'not today', f'the message of the hook became {msg!r} {raised!r}')
                    state = None
                else:
                    c.ok(raised is o.script, f'the error of the hook became {msg!r} {raised!r}')
                    state = None
                c.ev(f'hook {op}')
            for m_, a_ in ((mx, x), (my, y)):
                if m_ is not None:
                    c.same(m_, a_, 'the caller\'s matrix after training')
        elif op in ('predict', 'transform'):
            x = scale * c.rng.normal(size=(c.int(1, 4), p))
            if state is None:
                c.refused(lambda: getattr(o, op)(gen.plain(x)), f'{op} of an untrained model')
                c.ok(not [e for e in o.log if e[0] == op], f'untrained: the {op} hook was called')
            else:
                m, s, ym, ys, learned = state
                mx = gen.plain(x.copy())
                got = c.call(op, getattr(o, op), mx)
                calls = [e for e in o.log if e[0] == op]
                c.ok(len(calls) >= 1, f'the {op} hook was not asked')
                z = (x - m) / s
                for e in calls:
                    c.close(e[1], z, f'predictors given to the {op} hook', 1e-9)
                if op == 'predict':
                    # the hook's answer is compared on what it was given, so that its own magnitudes do not matter
                    c.close(got, o.answer(calls[-1][1]) * ys + ym, 'prediction in response units', 1e-9)
                else:
                    c.close(got, calls[-1][1] @ learned[0], 'transformed', 1e-12)
                c.same(mx, x, 'the caller\'s matrix')
        elif op == 'set':
            o.knob = c.int(1, 9)
            state = None
        elif op == 'wrong':
            old = o.knob
            c.refused(lambda: setattr(o, 'knob', -c.int(0, 3)), 'a value the validator refuses')
            c.ok(o.knob == old, 'a refused value was kept')
            c.ok(not [e for e in o.log if e[0] == 'reset'], 'a refused value reset the model')
        elif op == 'pre':
            if c.chance(0.5):
                o.preprocessing_type = c.pick(PRE)
            else:
                o.num_components = c.int(1, 6)
            state = None
        elif op == 'reset':
            o.reset()
            state = None
        elif op == 'debug':
            o.debug = c.chance(0.5)  # no hyper-parameter
        else:
            o.steps.append('more')  # no validator, no reset
            o.steps = o.steps
        c.ok(o.is_initialised() == (state is not None), f'{cls.__name__} says trained={o.is_initialised()} after {trace}')
        g = o.get_matrix('G')
        c.ok((g is not None) if state is not None else True, 'the learned matrix is gone')
        if state is not None:
            c.close(g, state[4][0], 'the learned matrix', 1e-12)
    c.ev(cls.__name__)
    c.sig(cls.__name__, trace, p, scale)
    c.sample({'class': cls.__name__, 'trace': trace})


# ---- other algorithms ------------------------------------------------------------------------------------------------
class Plain(AbstractAlgorithm):
    """An algorithm with two validated parameters, one of them inherited by a subclass."""

    def __init__(self):
        super().__init__()
        self.resets = []
        self.low = 0
        self.done = True

    def initialize(self):
        super().initialize()
        self.low = 3

    def reset(self):
        super().reset()
        if hasattr(self, 'resets'):
            self.resets.append(getattr(self, 'low', None))

    @staticmethod
    def validate_low(value):
        return value < 10

    def learn(self):
        self.initialised = True

    def to_string(self):
        return f'low={self.low}'


class Derived(Plain):
    def __init__(self, high, *, label='x'):
        super().__init__()
        self.high = high
        self.label = label

    def __construct__(self, high, *, label='x'):  # gets the arguments of the constructor
        super().__construct__()
        self.constructed = high, label

    def validate_high(self, value):  # an instance method that looks at another parameter
        return value > self.low or not self.init_complete()


def lifecycle(c):
    """Construction with arguments, validation by static and instance methods, resets and texts."""
    h = c.int(11, 20)
    label = c.pick(['a', 'b'])
    o = Derived(h, label=label)
    c.ok((o.high, o.label) == (h, label), 'constructor arguments')
    c.ok(o.constructed == (h, label), 'arguments of the construction hook')
    c.ok(o.low == 3, f'initialize did not set the default: {o.low}')
    c.ok(o.init_complete() and not o.is_initialised(), 'state after construction')
    c.ok(str(o) == 'low=3', f'text {o}')
    low = 3
    trace = []
    for _ in range(c.int(3, 10)):
        op = c.pick(['low', 'bad low', 'high', 'bad high', 'learn', 'reset', 'label', 'other'])
        trace.append(op)
        before = o.is_initialised()
        n = len(o.resets)
        if op == 'low':
            low = c.int(-5, 9)
            o.low = low
        elif op == 'bad low':
            c.refused(lambda: setattr(o, 'low', c.int(10, 99)), 'low')
        elif op == 'high':
            h = c.int(10, 30)
            o.high = h
        elif op == 'bad high':
            c.refused(lambda: setattr(o, 'high', low - c.int(0, 3)), 'high')
        elif op == 'learn':
            o.learn()
        elif op == 'reset':
            o.reset()
        elif op == 'label':
            o.label = 'z'
        else:
            fresh = Derived(12)
            c.ok(fresh.low == 3 and not fresh.is_initialised(), 'another object is not fresh')
        c.ok((o.low, o.high) == (low, h), f'values {(o.low, o.high)} after {trace}')
        want = {'low': False, 'high': False, 'reset': False, 'learn': True}.get(op, before)
        c.ok(o.is_initialised() == want, f'trained={o.is_initialised()} after {trace}')
        if op in ('low', 'high', 'reset'):
            c.ok(len(o.resets) > n, f'{op} did not call the reset hook')
        elif op in ('bad low', 'bad high', 'label'):
            c.ok(len(o.resets) == n, f'{op} called the reset hook')
        c.ok(str(o) == f'low={low}', f'text {o}')
    c.sig(trace, h, label)


# ---- transformations -------------------------------------------------------------------------------------------------
class Shift(AbstractTransformation):
    """Subtracts the first cell of the matrix it was configured with."""

    def __init__(self):
        super().__init__()
        self.seen = []
        self.first = None

    def configure(self, data):
        self.seen.append(bits(data))
        self.first = float(arr(data)[0, 0])
        self.configured = True

    def do_transform(self, data):
        return Matrix(arr(data) - self.first)

    def do_inverse_transform(self, data):
        return Matrix(arr(data) + self.first)


class Odd(Shift):
    """Fails while being configured with a negative first cell."""

    def configure(self, data):
        if arr(data)[0, 0] < 0:
            raise Stop('configuring')
        super().configure(data)


def transformation(c):
    cls = c.pick([Shift, Odd])
    o = cls()
    ref, want, trace = None, [], []
    for _ in range(c.int(3, 10)):
        a = c.rng.normal(size=(c.int(1, 4), c.int(1, 4)))
        op = c.pick(['transform', 'transform', 'inverse', 'configure', 'reset', 'quick'])
        trace.append(op)
        m = gen.plain(a.copy())
        fails = cls is Odd and a[0, 0] < 0
        if op == 'configure':
            if fails:
                c.refused(lambda: o.configure(m), 'configuring')
            else:
                o.configure(m)
                ref = a[0, 0]
                want.append(a)
        elif op == 'reset':
            o.reset()
            ref = None
        elif op == 'quick':
            if fails:
                c.refused(lambda: cls.quick_apply(m), 'one-shot use')
            else:
                r = cls.quick_apply(m)
                c.close(r, a - a[0, 0], 'one-shot use', 1e-12)
        else:
            f = o.transform if op == 'transform' else o.inverse_transform
            if ref is None and fails:
                c.refused(lambda: f(m), 'first use')
                c.ok(not o.configured, 'configured although the hook failed')
            else:
                if ref is None:
                    ref = a[0, 0]
                    want.append(a)
                got = c.call(op, f, m)
                c.close(got, a - ref if op == 'transform' else a + ref, op, 1e-12)
        c.same(m, a, 'the matrix given')
        c.ok(len(o.seen) == len(want), f'configured {len(o.seen)} times after {trace}')
        for s, w in zip(o.seen, want):
            c.same(Matrix(s), w, 'the matrix configured with')
        c.ok(bool(o.configured) == (ref is not None), f'configured={o.configured} after {trace}')
    c.sig(cls.__name__, trace, a)


class Recorded(Filter):
    def __init__(self, log, name, f):
        self.log, self.name, self.f = log, name, f

    def transform(self, predictors):
        a = bits(predictors)
        r = self.f(a)
        self.log.append((self.name, a, r))
        predictors.data[:] = 0.0  # whatever it does with what it was given
        return Matrix(r.copy())


def chain(c):
    """User-written filters in a chain: order, and each gets exactly what its predecessor gave."""
    log = []
    fs, names = [], []
    for i in range(c.int(0, 4)):
        k = c.pick(['own', 'own', 'shift', 'center', 'down', 'chain', 'pls'])
        if k == 'own':
            e, t = c.uni(-2, 2), c.chance(0.3)
            fs.append(Recorded(log, i, lambda a, e=e, t=t: a[:, ::-1] * e + 1 if t else a + e * a * a))
        elif k == 'shift':
            fs.append(Shift())
        elif k == 'center':
            fs.append(Center())
        elif k == 'down':
            fs.append(Downsample())
        elif k == 'chain':
            e = c.uni(-2, 2)
            fs.append(MultiFilter([Recorded(log, i, lambda a, e=e: a * e), Equidistance(3)]))
        else:
            fs.append(Equidistance(c.int(2, 5)))
        names.append(k)
    f = MultiFilter(fs)
    for turn in range(c.int(1, 3)):
        a = c.rng.normal(size=(c.int(1, 3), c.int(20, 40)))
        del log[:]
        if turn == 0:
            learned = {}
        # expectation, member by member
        want, calls = a, []
        for i, (k, g) in enumerate(zip(names, fs)):
            if k == 'own':
                calls.append((i, want))
                want = g.f(want)
            elif k == 'shift':
                learned.setdefault(i, want[0, 0])
                want = want - learned[i]
            elif k == 'center':
                learned.setdefault(i, want.mean(0))
                if learned[i].shape[0] != want.shape[1]:
                    want = None
                    break
                want = want - learned[i]
            elif k == 'chain':
                calls.append((i, want))
                want = g.filters[0].f(want)
                want = arr(Equidistance(3).transform(Matrix(want.copy())))
            else:
                want = arr(type(g)(g.num_samples).transform(Matrix(want.copy())) if k == 'pls' else
                           Downsample().transform(Matrix(want.copy())))
        m = gen.plain(a.copy())
        if want is None:
            return
        got = c.call('chain', f.transform, m)
        c.close(got, want, f'chain {names}', 1e-9)
        c.same(m, a, 'the matrix given')
        c.ok([e[0] for e in log] == [e[0] for e in calls], f'order {[e[0] for e in log]} instead of {[e[0] for e in calls]}')
        for e, w in zip(log, calls):
            c.close(e[1], w[1], f'input of member {e[0]}', 1e-9)
    c.sig(names, a)


class Zones(AbstractMultiplicativeScatterCorrection):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def correct(self, average, data):
        self.log.append((bits(average), bits(data)))
        return Matrix(arr(data) * 2.0)


def correction(c):
    """A user-written scatter correction, and a user-written pre-filter of the range-based one."""
    n = c.int(3, 7)
    wave = np.sort(c.rng.normal(size=n)) * 10
    spectra = c.rng.normal(size=(n, c.int(1, 4)))
    conf = np.column_stack([wave, spectra])
    avg = np.column_stack([wave, spectra.mean(1)])
    a = np.column_stack([wave, c.rng.normal(size=n)])
    m = MultiplicativeScatterCorrection()
    if c.chance(0.5):
        a[:, 0] += c.pick([0.0, 0.01]) * c.rng.normal(size=n)  # measured at slightly other wave numbers
        log = []
        m.correction = Zones(log)
        m.configure(gen.plain(conf))
        got = c.call('own correction', m.transform, gen.plain(a.copy()))
        c.close(got, a * 2, 'the answer of the correction', 1e-12)
        c.ok(len(log) == 1, f'asked {len(log)} times')
        c.close(log[0][0], avg, 'the average given', 1e-9)
        c.close(log[0][1], a, 'the spectrum given', 1e-12)
        c.ev('own correction')
    else:
        class Bend(AbstractTransformation):
            def configure(self, data):
                self.configured = True

            def do_transform(self, data):
                r = arr(data).copy()
                r[:, 1] = np.sin(r[:, 1]) + 0.1 * r[:, 1]
                return Matrix(r)

            def do_inverse_transform(self, data):
                raise Stop()
        r = RangeBased()
        r.prefilter = Bend()
        lo, hi = wave[0] - 1, wave[-1] + 1
        r.ranges = [(lo, hi)]
        m.correction = r
        m.configure(gen.plain(conf))
        got = c.call('own pre-filter', m.transform, gen.plain(a.copy()))
        b = np.sin(a[:, 1]) + 0.1 * a[:, 1]
        x = avg[:, 1]
        sx = ((x - x.mean()) ** 2).sum()
        slope = ((x - x.mean()) * (b - b.mean())).sum() / sx
        if abs(slope) < 1e-3 or sx < 1e-3:
            return
        inter = b.mean() - slope * x.mean()
        c.close(got, np.column_stack([wave, (a[:, 1] - inter) / slope]), 'corrected', 1e-6)
        c.ev('own pre-filter')
    c.sig(conf, a)


# ---- kernels ---------------------------------------------------------------------------------------------------------
class Pairs(AbstractKernel):
    """Given by its vector form alone; not symmetric if told so."""

    def __init__(self, f):
        self.f, self.calls = f, 0

    def apply_vector(self, x, y):
        self.calls += 1
        a, b = arr(x), arr(y)
        assert a.shape == b.shape and a.shape[0] == 1, (a.shape, b.shape)
        return self.f(a[0], b[0])


def lopsided(a, b):
    return float(a[0] - 2 * b[-1] + (a * a * b).sum())


def kernel(c):
    n, q, p = c.int(1, 5), c.int(1, 5), c.int(1, 4)
    x, y = c.rng.normal(size=(n, p)), c.rng.normal(size=(q, p))
    k = Pairs(lopsided)
    mx, my = gen.plain(x.copy()), gen.plain(y.copy())
    got = c.call('matrix of pairs', k.apply_matrix, mx, my)
    c.close(got, np.array([[lopsided(a, b) for b in y] for a in x]), 'matrix of pairs', 1e-12)
    c.same(mx, x, 'X')
    c.same(my, y, 'Y')
    s = Pairs(lambda a, b: float((a * b).sum() ** 3 + np.abs(a - b).sum()))
    got = c.call('matrix of one set', s.apply_matrix, mx)
    c.close(got, np.array([[s.f(a, b) for b in x] for a in x]), 'matrix of one set', 1e-12)
    c.same(mx, x, 'X')
    c.sig(x, y)


def kernel_model(c):
    """Kernel regression with a user-written kernel equals the one with the built-in kernel of the same formula."""
    n, p, q = c.int(8, 14), c.int(2, 4), c.int(1, 2)
    x = c.rng.normal(size=(n, p))
    y = x[:, :q] + 0.5 * np.sin(x[:, -1:]) + 0.05 * c.rng.normal(size=(n, q))
    g, d = c.pick([0.1, 0.5, 1.0]), c.int(1, 2)
    which = c.pick(['linear', 'poly', 'rbf'])
    if which == 'linear':
        b, f = LinearKernel(), lambda u, v: float(u @ v)
    elif which == 'poly':
        b = PolyKernel()
        b.degree, b.gamma, b.coef_0 = d, g, 1.0
        f = lambda u, v: float((g * (u @ v) + 1.0) ** d)
    else:
        b = RBFKernel()
        b.gamma = g
        f = lambda u, v: float(np.exp(-g * np.linalg.norm(u - v)))
    out = []
    for k in (b, Pairs(f)):
        o = KernelPLS()
        o.kernel = k
        o.num_components = c.notes.setdefault('k', c.int(1, 2))
        o.preprocessing_type = c.notes.setdefault('pre', c.pick(PRE))
        msg = c.call('training', o.initialize, gen.plain(x.copy()), gen.plain(y.copy()))
        c.ok(msg is None, f'{which}: {msg!r}')
        out.append((arr(o.predict(gen.plain(x[:4] * 0.9))).copy(), arr(o.transform(gen.plain(x[:4] * 0.9))).copy()))
        if k is not b:
            c.ok(k.calls > 0, 'the kernel was never asked')
    c.close(out[1][0], out[0][0], f'predictions with an own {which} kernel', 1e-6)
    c.close(out[1][1], out[0][1], f'scores with an own {which} kernel', 1e-6)
    c.sig(which, x, y, g, d)


# ---- contrast functions, base regressions -----------------------------------------------------------------------------
class Mine(NegEntropyApproximationFunction):
    def __init__(self, inner, limit=None):
        self.inner, self.left, self.shapes = inner, limit, set()

    def apply(self, x):
        self.shapes.add(arr(x).shape)
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Stop('contrast')
        return self.inner.apply(x)


def contrast(c):
    n, p = c.int(12, 40), c.int(2, 4)
    x = c.rng.laplace(size=(n, p)) @ c.rng.normal(size=(p, p))
    inner = c.pick([LogCosH, Exponential, Cube])
    algo = c.pick(list(Algorithm))
    comp, it = c.int(1, p), c.int(1, 6)

    def make(fun):
        o = FastICA()
        o.num_components, o.max_iter, o.algorithm = comp, it, algo
        o.fun = fun
        return o
    a, own = make(inner()), Mine(inner())
    b = make(own)
    ra, rb = (arr(o.transform(gen.plain(x.copy()))).copy() for o in (a, b))
    c.close(rb, ra, 'sources with an own contrast function', 1e-9)
    c.ok(own.shapes, 'the contrast function was never asked')
    want = {(n, 1)} if algo is Algorithm.DEFLATION else {(comp, n)}
    c.ok(own.shapes == want, f'contrast function asked for {own.shapes} instead of {want}')
    f = make(Mine(inner(), c.int(0, 1)))
    try:
        f.transform(gen.plain(x.copy()))
    except Stop:
        c.ok(not f.is_initialised(), 'trained although the contrast function failed')
        c.ok(f.components is None, 'components although the contrast function failed')
        f.fun = inner()
        c.close(f.transform(gen.plain(x.copy())), ra, 'sources after the failure', 1e-9)
        c.ev('failing contrast function')
    c.sig(algo.name, inner.__name__, x, comp, it)


def base(c):
    """A user-written base regression of orthogonal-signal PLS."""
    n, p = c.int(8, 14), c.int(3, 5)
    x = c.rng.normal(size=(n, p))
    y = x[:, :1] - 0.5 * x[:, 1:2] + 0.1 * c.rng.normal(size=(n, 1))
    twin = OPLS()
    twin.num_components = k = c.int(1, 2)
    twin.preprocessing_type = pre = c.pick(PRE)
    twin.base_PLS.num_components = 1
    c.ok(twin.initialize(gen.plain(x.copy()), gen.plain(y.copy())) is None, 'OPLS')
    own = Single()
    own.preprocessing_type = inner = c.pick(PRE)
    o = OPLS()
    o.num_components, o.preprocessing_type = k, pre
    o.base_PLS = own
    own.log.clear()
    c.ok(c.call('training', o.initialize, gen.plain(x.copy()), gen.plain(y.copy())) is None, 'OPLS with an own base')
    t = [e for e in own.log if e[0] == 'train']
    c.ok(len(t) == 1, f'the base was trained {len(t)} times')
    ym, ys = stats(pre, y)
    clean, z = arr(twin.transform(gen.plain(x.copy()))), (y - ym) / ys
    (m, s), (zm, zs) = stats(inner, clean), stats(inner, z)
    if (np.abs(s) < 1e-9).any():
        return
    tol = 1e-8 * max(1.0, float(1 / s.min()))
    c.close(t[0][1], (clean - m) / s, 'cleaned predictors given to the base', tol, 1.0)
    c.close(t[0][2], (z - zm) / zs, 'responses given to the base', 1e-9)
    q = x[:3] * 0.7
    own.log.clear()
    got = c.call('predict', o.predict, gen.plain(q.copy()))
    asked = [e for e in own.log if e[0] == 'predict']
    c.ok(len(asked) == 1, f'the base was asked {len(asked)} times')
    c.close(asked[0][1], (arr(twin.transform(gen.plain(q.copy()))) - m) / s, 'cleaned query given to the base', tol, 1.0)
    c.close(got, (own.answer(asked[0][1]) * zs + zm) * ys + ym, 'the answer of the base in response units', 1e-9)
    c.ev('own base')
    c.sig(x, y, k, pre.name, inner.name)


# ---- serialisables -----------------------------------------------------------------------------------------------------
class Bag(Serialisable):
    def __init__(self, items):
        self.items = items

    def serialise_state(self, stream):
        for i in self.items:
            if isinstance(i, Matrix):
                i.serialise_state(stream)
            elif i is None:
                raise Stop('cannot')
            elif isinstance(i, int) and not -2 ** 31 <= i < 2 ** 31:
                stream.write(self.serialise_big_int(i))
            else:
                stream.write(self.serialise_to_bytes(i))


def encode(i):
    if isinstance(i, Matrix):
        a = arr(i)
        return encode(a.shape[0]) + encode(a.shape[1]) + b''.join(encode(float(v)) for v in a.ravel())
    if isinstance(i, int):
        if -2 ** 31 <= i < 2 ** 31:
            return i.to_bytes(4, 'little', signed=True)
        n = ((i if i >= 0 else ~i).bit_length() + 8) // 8
        return encode(n) + i.to_bytes(n, 'little', signed=True)
    if isinstance(i, float):
        return np.float64(i).tobytes()
    return encode(len(i.encode())) + i.encode()


def serialisable(c):
    items = []
    for _ in range(c.int(0, 6)):
        items.append(c.pick([lambda: c.int(-9, 9), lambda: float(c.rng.normal()), lambda: 'ä' * c.int(0, 3) + 'z',
                             lambda: c.int(2 ** 31, 2 ** 60) * c.pick([1, -1]),
                             lambda: Matrix(c.rng.normal(size=(c.int(1, 3), c.int(1, 3))))])())
    bad = c.chance(0.2)
    o = Bag(items + [None] if bad else items)
    want = b''.join(encode(i) for i in items)
    d = tempfile.mkdtemp(prefix='verif-c29-')
    try:
        f = os.path.join(d, *c.pick([['f'], ['a', 'f'], ['a', 'b', 'f']]))
        if c.chance(0.4):
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as h:
                h.write(b'old')
        old = open(f, 'rb').read() if os.path.exists(f) else None
        if bad:
            c.refused(lambda: o.save_state(f), 'saving')
            c.ok((open(f, 'rb').read() if os.path.exists(f) else None) in (old, None if old is None else old),
                 'a refused save changed the file')
        else:
            o.save_state(f)
            with open(f, 'rb') as h:
                c.ok(h.read() == want, 'the saved bytes')
            s = io.BytesIO()
            o.serialise_state(s)
            c.ok(s.getvalue() == want, 'the written bytes')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.sig([repr(i) if not isinstance(i, Matrix) else i.data.tolist() for i in items], bad)


# ---- debug output ------------------------------------------------------------------------------------------------------
def debug(c):
    """Debug output changes no answer."""
    s = zoo.spec(c, c.pick(zoo.PLS_NAMES + zoo.OTHER_NAMES), prep=True)
    if s.name == 'FastICA':
        s.params['max_iter'] = 30
    d = s.data(c, n=c.int(9, 14), p=c.int(4, 5))
    x, y = s.predictors(d), s.response(d)
    obs = []
    for flag in (False, True):
        o = s.build()
        o.debug = flag
        msg = c.call(f'training {s}', s.train, o, {k: gen.plain(v) for k, v in d.items()})
        c.ok(msg is None, f'{s}: {msg!r}')
        if c.chance(0.5):
            o.debug = not flag
            c.ok(o.is_initialised(), 'switching the debug output made the model untrained')
        obs.append({k: (arr(v).copy() if isinstance(v, Matrix) else v) for k, v in
                    s.observe(o, gen.plain(x[:3]), gen.plain(y[:3]) if y is not None else None).items()})
    c.ok(sorted(obs[0]) == sorted(obs[1]), 'other answers with debug output')
    for k, v in obs[0].items():
        if isinstance(v, np.ndarray):
            fin = np.isfinite(v)
            c.close(obs[1][k], v, f'{s} with debug output: {k}', 1e-9, max(float(np.abs(v[fin]).max()), 1e-300) if fin.any() else None)
    c.ev(f'debug {s.name}')
    c.sig(str(s), x)


SCENARIOS = [('regression', regression, 2500, 20000), ('lifecycle', lifecycle, 1500, 12000),
             ('transformation', transformation, 1500, 12000), ('chain', chain, 1200, 10000),
             ('correction', correction, 1000, 8000), ('kernel', kernel, 1000, 8000), ('kernel model', kernel_model, 150, 1500),
             ('contrast', contrast, 300, 3000), ('base', base, 600, 5000), ('serialisable', serialisable, 800, 8000),
             ('debug', debug, 500, 4000)]
