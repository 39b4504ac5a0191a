"""C30: fault injection into the data - bad values, bad rows and bad columns, and what they may not reach."""
import os
import random
import sys
import threading
import warnings

import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.core.matrix import Matrix, helper
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .. import common, gen, trafo, zoo
from ..common import Skip, arr

RULE = ('trainings, fits and decompositions on data with injected faults (missing and infinite values, zero, constant, '
        'repeated and extreme rows, columns and blocks, too few rows), under a monitor that counts the lines the '
        'library executes, followed by work on good data; queries with bad rows and fits with bad columns against the '
        'same without them; distinct: different (object, parameters, fault, data)')
LIMIT = 3_000_000  # lines of library code in one call; ordinary calls of this size take up to some ten thousand
ASSUMPTIONS = [f'a call on small data that executes {LIMIT} lines of the library does not end',
               'other rows and columns agree up to a relative error of 1e-8 (1e-6 for fitted powers)',
               'sparse PLS scores, Fourier modes of several rows and scatter correction are functions of the whole '
               'batch (C18, C12) and are not asked with bad rows; domain-invariant models are initialised anew before '
               'they work on good data (KF3)']
HOME = os.path.join(os.path.abspath(common.SRC), 'wai', 'ma') + os.sep
TOOL = 3
METER = {'lines': 0, 'limit': None, 'calls': 0, 'longest': 0}


class TooLong(BaseException):
    pass


def _line(code, line):
    if not code.co_filename.startswith(HOME):
        return sys.monitoring.DISABLE
    METER['lines'] += 1
    if METER['limit'] is not None and METER['lines'] > METER['limit']:
        METER['limit'] = None
        raise TooLong()


def worker_init():
    m = sys.monitoring
    m.use_tool_id(TOOL, 'verif')
    m.register_callback(TOOL, m.events.LINE, _line)
    m.set_events(TOOL, m.events.LINE)


def worker_report():
    return {'metered_calls': METER['calls'], 'lines_of_metered_calls': METER['total']} if 'total' in METER else {}


def ends(c, what, fn, *a):
    """('gave', result) or ('raised', exception) of a call that has to come to an end."""
    METER['lines'], METER['limit'] = 0, LIMIT
    METER['calls'] += 1
    c.checks += 1
    try:
        return 'gave', fn(*a)
    except TooLong:
        c.fail(f'{what}: does not end ({LIMIT} lines executed)')
    except RecursionError:
        c.fail(f'{what}: recursion without end')
    except Exception as e:
        return 'raised', e
    finally:
        METER['limit'] = None
        METER['total'] = METER.get('total', 0) + METER['lines']
        METER['longest'] = max(METER['longest'], METER['lines'])
        c.ev('lines<1e%d' % len(str(METER['lines'])))


def process():
    s = np.random.get_state()
    return dict(floating_point_errors=np.geterr(), warning_filters=[repr(f) for f in warnings.filters],
                numpy_random=(s[0], s[1].tobytes(), s[2:]), random=hash(random.getstate()), cwd=os.getcwd(),
                recursion_limit=sys.getrecursionlimit(), threads=threading.active_count(),
                print_options=repr(np.get_printoptions()), environment=dict(os.environ))


def same_process(c, before, what):
    after = process()
    for k in before:
        c.ok(after[k] == before[k], f'{what}: {k} of the process changed')


FAULTS = ('nan', 'inf', 'cell 1e300', 'nan row', 'nan column', 'inf column', 'zero', 'zero row', 'zero column', 'constant',
          'constant column', 'all equal rows', 'two distinct rows', 'equal columns', '1e300', '1e154', '1e-310', '1e-160',
          'one row', 'two rows', 'few rows', 'one column', 'mixed')


def spoil(c, a, fault):
    """A copy of a with the fault injected, or None where it means other dimensions."""
    a = np.array(a, dtype=float)
    n, p = a.shape
    i, j = c.int(0, n - 1), c.int(0, p - 1)
    v = c.pick([np.inf, -np.inf])
    if fault == 'nan':
        a[i, j] = np.nan
    elif fault == 'inf':
        a[i, j] = v
    elif fault == 'cell 1e300':
        a[i, j] = c.pick([1e300, -1.7e308])
    elif fault == 'nan row':
        a[i] = np.nan
    elif fault == 'nan column':
        a[:, j] = np.nan
    elif fault == 'inf column':
        a[:, j] = v
    elif fault == 'zero':
        a[:] = 0
    elif fault == 'zero row':
        a[i] = 0
    elif fault == 'zero column':
        a[:, j] = 0
    elif fault == 'constant':
        a[:] = c.pick([3.7, -0.1, 1e6])
    elif fault == 'constant column':
        a[:, j] = c.pick([3.7, -0.1, 1e6])
    elif fault == 'all equal rows':
        a[:] = a[i]
    elif fault == 'two distinct rows':
        a[:] = a[[c.pick([0, i]) for _ in range(n)]]
    elif fault == 'equal columns':
        a[:] = a[:, [j]]
    elif fault.startswith('1e'):
        a *= float(fault)
    elif fault == 'mixed':
        for _ in range(c.int(2, 6)):
            a[c.int(0, n - 1), c.int(0, p - 1)] = c.pick([np.nan, np.inf, -np.inf, 0.0, -0.0, 1e300, 5e-324, 1e-200])
    else:
        return None
    return a


def used(s, data):
    """The blocks the training of s looks at."""
    if s.name == 'DIPLS':
        return {'unsupervised': ('xs', 'xt', 'ys'), 'supervised': ('xs', 'xt', 'ys', 'yt'),
                'semisupervised': ('xs', 'xt', 'xu', 'ys', 'yt')}[s.mode]
    return tuple(data)


def faulty(c, s):
    """(fault, data with the fault in one or all used blocks)"""
    fault = c.pick(FAULTS)
    data = s.data(c)
    if fault in ('one row', 'two rows', 'few rows'):
        m = {'one row': 1, 'two rows': 2}.get(fault) or c.int(3, 5)
        data = {k: v[:m].copy() for k, v in data.items()}
    elif fault == 'one column':
        data = {k: v[:, :1].copy() for k, v in data.items()}
    else:
        keys = [c.pick(used(s, data))] if c.chance(0.7) else used(s, data)
        fresh = {k: spoil(c, data[k], fault) for k in keys}
        fault += ' in ' + ', '.join(sorted(keys))
        data.update(fresh)
    return fault, data


def real(c, m, what):
    """The array of an answer: whatever the data were, it is a real matrix."""
    a = arr(m, what)
    c.ok(a.dtype.kind in 'fiu', f'{what}: entries of type {a.dtype}')
    return a


def queries(s, o, x, y):
    return {k: v for k, v in s.query(o, gen.plain(x), gen.plain(y) if y is not None else None).items()}


def training(c):
    names = zoo.PLS_NAMES + zoo.OTHER_NAMES
    name = names[c.index % len(names)]
    s = zoo.spec(c, name, prep=True)
    if name in ('FastICA', 'NIPALS', 'KernelPLS', 'SparsePLS', 'PRM', 'CCARegression'):
        s.params['max_iter'] = c.pick([5, 20])  # iterations that do not converge are to end there
    fault, data = faulty(c, s)
    x0 = s.predictors(data)
    o = s.build()
    before = process()
    used_before = False
    if c.chance(0.3):  # trained before
        d = s.data(c)
        ends(c, f'training of {s}', s.train, o, s.mats(c, d))
        used_before = True
    m = s.mats(c, data)
    copies = {k: v.data.copy() for k, v in m.items()}
    what = f'{s} trained on data with {fault} {[v.shape for v in data.values()]}'
    how, got = ends(c, what, s.train, o, m)
    for k in m:
        c.ok(np.array_equal(m[k].data, copies[k], equal_nan=True), f'{what}: the caller\'s {k} changed')
    same_process(c, before, what)
    p = x0.shape[1]
    xq = c.rng.normal(size=(3, p))
    yq = c.rng.normal(size=(3, data['y'].shape[1])) if name == 'CCAFilter' else None
    retrains = name in ('PCA', 'FastICA')
    if how == 'gave' and got is None:
        c.ev('trained')
        if retrains:
            for k, v in s.exposed(o).items():
                real(c, v, f'{what}: {k}')
        else:
            for k, f in (('predict', 'predict'), ('transform', 'transform')):
                if k == 'predict' and not s.pls:
                    continue
                h, r = ends(c, f'{what}, {k}', getattr(o, f), gen.plain(xq))
                c.ok(h == 'gave', f'{what}: training reported success, but {k} raises {r!r}')
                r = real(c, r, f'{what}: {k}')
                c.ok(r.shape[0] == 3, f'{what}: {k} of 3 rows has {r.shape[0]}')
                if np.isnan(np.hstack([data[b].ravel() for b in used(s, data)])).any():
                    c.ok(not np.isfinite(r).any(), f'{what}: a missing value was turned into the answer {r.tolist()}')
                    c.ev('missing stays missing')
    elif how == 'gave':
        c.ok(isinstance(got, str) and got != '', f'{what}: training returned {got!r}')
        c.ev('message')
    else:
        c.ev('raised ' + type(got).__name__)
    if how != 'gave' or got is not None:
        if not retrains:
            h, r = ends(c, f'{what}, transform', o.transform, gen.plain(xq))
            c.ok(h == 'raised', f'{what}: training failed, but the model still transforms')
    # the same object on good data
    good = s.data(c)
    if name == 'DIPLS':
        o.initialize()
        for k, v in s.params.items():
            setattr(o, k, v)
    h, r = ends(c, f'{what}, then on good data', s.train, o, {k: gen.plain(v) for k, v in good.items()})
    f = s.build()
    hf, rf = ends(c, f'fresh {s}', s.train, f, {k: gen.plain(v) for k, v in good.items()})
    c.ok((h, type(r)) == (hf, type(rf)), f'{what}, then trained on good data: {h} {r!r}, but a fresh one {hf} {rf!r}')
    if h == 'gave' and r is None:
        q = good[{'DIPLS': 'xt', 'GLSW': 'x1', 'EPO': 'x1', 'YGradientGLSW': 'x1', 'YGradientEPO': 'x1'}.get(name, 'x')][:4]
        yq = good['y'][:4] if name == 'CCAFilter' else None
        a, b = s.observe(o, gen.plain(q), gen.plain(yq) if yq is not None else None), \
            s.observe(f, gen.plain(q), gen.plain(yq) if yq is not None else None)
        for k in b:
            c.close(a[k], b[k], f'{what}, then trained on good data: {k}', 1e-8,
                    max(np.abs(b[k]).max(initial=0), 1e-12) if np.isfinite(b[k]).all() else None)
        c.ev('recovered')
    c.sig(name, repr(s), fault, x0, used_before)
    c.ev('fault:' + fault.split(' in ')[0])
    c.sample({'model': repr(s), 'fault': fault, 'outcome': f'{how} {got!r:.80}'})


# ---- bad rows --------------------------------------------------------------------------------------------------
BAD_ROW = ('nan', 'nan cell', 'inf', 'inf cell', '-inf', '1e300', '-1e308 cell', 'mixed')


def bad_rows(c, X):
    """(X with some bad rows, the indices of the good ones, kinds)"""
    n, p = X.shape
    B = X.copy()
    k = c.int(1, max(1, n - 1))
    bad = sorted(c.perm(n)[:k])
    kinds = []
    for i in bad:
        r, j = c.pick(BAD_ROW), c.int(0, p - 1)
        kinds.append(r)
        if r == 'nan':
            B[i] = np.nan
        elif r == 'nan cell':
            B[i, j] = np.nan
        elif r == 'inf':
            B[i] = np.inf
        elif r == '-inf':
            B[i] = -np.inf
        elif r == 'inf cell':
            B[i, j] = np.inf
        elif r == '1e300':
            B[i] = 1e300 * c.rng.normal(size=p)
        elif r == '-1e308 cell':
            B[i, j] = -1e308
        else:
            for j in range(p):
                B[i, j] = c.pick([np.nan, np.inf, -np.inf, 1e300, 0.0, 1.0])
    return B, bad, [i for i in range(n) if i not in bad], kinds


def contained(c, f, X, what, honest=None, tol=1e-8, refusing=False):
    """f maps an array of rows to an array of answers; honest names the columns where a missing value has to show;
    refusing: values outside the domain may be refused (missing ones may not)."""
    B, bad, good, kinds = bad_rows(c, X)
    ref = f(X)
    c.ok(ref.shape[0] == len(X), f'{what}: {len(X)} rows in, {ref.shape[0]} out')
    h, got = ends(c, f'{what} with bad rows', f, B)
    desc = f'{what} with bad rows {bad} ({", ".join(sorted(set(kinds)))})'
    if h == 'raised' and refusing and not set(kinds) <= {'nan', 'nan cell'}:
        c.ev('refused:' + type(got).__name__)
        c.close(f(X), ref, f'{what} after refusing bad rows', 1e-10)
        return kinds
    c.ok(h == 'gave', f'{desc}: {got!r}, although the other rows are good')
    c.ok(got.shape == ref.shape, f'{desc}: shape {got.shape}, without them {ref.shape}')
    if good:
        scale = np.abs(ref[np.isfinite(ref)]).max(initial=0) + 1e-10 * np.abs(X).max()
        c.close(got[good], ref[good], f'{desc}: the answers for the other rows', tol, scale)
        c.ev('good rows next to bad ones', len(good))
    if honest is not None:
        for i in bad:
            for j in range(got.shape[1]):
                if honest(np.isnan(B[i]), j):
                    c.checks += 1
                    c.ok(not np.isfinite(got[i, j]), f'{desc}: row {i} has missing values, but the answer {got[i, j]}')
    for k in set(kinds):
        c.ev('bad row:' + k)
    return kinds


ANY = lambda nan, j: nan.any()  # noqa: E731
CELL = lambda nan, j: nan[j]  # noqa: E731
MODELS = tuple(n for n in zoo.PLS_NAMES + zoo.OTHER_NAMES if n not in ('PCA', 'FastICA'))
TRAFOS = tuple(n for n in trafo.NAMES if n != 'MSC')


def batch(c, x):
    n = c.pick([1, 2, 3, 5, 9, 24])
    return x[[c.int(0, len(x) - 1) for _ in range(n)]] * (1 + 0.05 * c.rng.random((n, x.shape[1])))


def model_rows(c):
    name = MODELS[c.index % len(MODELS)]
    s = zoo.spec(c, name, prep=True)
    data = s.data(c)
    o = s.build()
    msg = c.call(f'training of {s}', s.train, o, s.mats(c, data))
    c.ok(msg is None, f'{s}: {msg}')
    x = s.predictors(data)
    X = batch(c, x)
    before = process()
    honest = None if name == 'SparsePLS' else ANY  # variables without a coefficient do not have to be there
    if s.pls:
        kinds = contained(c, lambda a: arr(o.predict(gen.mat(c, a))), X, f'predict of {s}', honest)
    if name != 'SparsePLS':
        kinds = contained(c, lambda a: arr(o.transform(gen.mat(c, a))), X, f'transform of {s}', honest)
    if name == 'CCAFilter':
        contained(c, lambda a: arr(o.transform_response(gen.mat(c, a))), batch(c, data['y']),
                  f'transform_response of {s}', honest)
    if s.pls:  # and the next batch is not affected either
        a = arr(o.predict(gen.plain(X)))
        c.close(a, arr(o.predict(gen.plain(X))), f'predict of {s} twice', 1e-12)
    same_process(c, before, f'queries of {s}')
    c.sig(name, repr(s), X)
    c.ev('model:' + name)
    c.sample({'model': repr(s), 'bad rows': kinds})


def trafo_rows(c):
    name = TRAFOS[c.index % len(TRAFOS)]
    t = trafo.spec(c, name)
    a = trafo.data(c, name)
    o = t.build()
    c.call(f'configure of {t}', o.configure, gen.mat(c, a))
    X = trafo.data(c, name, like=a)
    if name == 'FFT':
        X = X[:1]
    honest = CELL if name in ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log',
                              'PassThrough') else ANY if name == 'RowNorm' else None
    before = process()
    what = f'transform of {t} configured on {a.shape}'
    domain = name in ('RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log')
    kinds = contained(c, lambda v: arr(o.transform(gen.mat(c, v)), what), X, what, honest, refusing=domain)
    if t.invertible() and name not in ('RowNorm', 'FFT'):
        Z = arr(o.transform(gen.plain(X)))
        contained(c, lambda v: arr(o.inverse_transform(gen.mat(c, v)), what), Z, 'inverse_' + what, honest, refusing=domain)
    if name in trafo.FITTED:  # what was learned is still what it was
        f = t.build()
        f.configure(gen.plain(a))
        c.close(arr(o.transform(gen.plain(X))), arr(f.transform(gen.plain(X))), f'{what} after bad rows', 1e-10)
    same_process(c, before, what)
    c.sig(name, repr(t), X)
    c.ev('transformation:' + name)
    c.sample({'transformation': repr(t), 'bad rows': kinds})


def filter_rows(c):
    p, n = c.int(3, 30), c.int(1, 9)
    X = gen.values(c, n, p, c.pick(['normal', 'uniform', 'offset']))
    kind = c.pick(['Downsample', 'Equidistance', 'MultiFilter', 'kernel', 'kernel second'])
    if kind.startswith('kernel'):
        k = c.pick([LinearKernel, PolyKernel, RBFKernel])()
        if hasattr(k, 'gamma'):
            k.gamma = 0.2
        Y = gen.values(c, c.int(1, 7), p, 'normal')
        X = X / max(1.0, np.abs(X).max())
        if kind == 'kernel':
            contained(c, lambda v: arr(k.apply_matrix(gen.mat(c, v), gen.mat(c, Y))), X, f'{type(k).__name__} matrix', ANY)
        else:
            contained(c, lambda v: arr(k.apply_matrix(gen.mat(c, Y), gen.mat(c, v))).T, X,
                      f'{type(k).__name__} matrix, second argument', ANY)
    else:
        d, e = Downsample(), Equidistance(c.int(2, 2 * p))
        d.start_index, d.step = c.int(0, p - 2), c.int(1, 5)
        if kind == 'MultiFilter':
            d.start_index, d.step = c.int(0, 1), c.int(1, 2)
            o = MultiFilter([e, d])
        else:
            o = d if kind == 'Downsample' else e
        contained(c, lambda v: arr(o.transform(gen.mat(c, v))), X, f'{kind} of {X.shape}')
    c.sig(kind, X)
    c.ev('filter:' + kind)


# ---- bad columns -----------------------------------------------------------------------------------------------
COLUMNWISE = ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log')


def columns(c):
    """Each column is learned by itself: a bad one leaves the others as they are."""
    name = COLUMNWISE[c.index % len(COLUMNWISE)]
    t = trafo.spec(c, name)
    p = c.int(2, 7)
    a = trafo.data(c, name, p=p)
    X = trafo.data(c, name, like=a)
    j = c.int(0, p - 1)
    fault = c.pick(['nan', 'nan column', 'inf', 'inf column', 'zero column', 'constant column', 'cell 1e300', '1e300', '1e-310'])
    b = a.copy()
    b[:, [j]] = spoil(c, a[:, [j]], fault)
    rest = [i for i in range(p) if i != j]
    o, f = t.build(), t.build()
    before = process()
    what = f'{t} configured on {a.shape} with {fault} in column {j}'
    m = gen.mat(c, b)
    copy = m.data.copy()
    h, r = ends(c, what, o.configure, m)
    c.ok(np.array_equal(m.data, copy, equal_nan=True), f'{what}: the caller\'s matrix changed')
    f.configure(gen.plain(a))
    if h == 'gave':
        tol = 1e-6 if name == 'PowerTransformer' else 1e-8
        Q = X.copy()
        if c.chance(0.5):
            Q[:, [j]] = spoil(c, X[:, [j]], fault)
        h, got = ends(c, f'transform of {what}', o.transform, gen.mat(c, Q))
        if h == 'gave':
            got, ref = arr(got, what), arr(f.transform(gen.plain(X)))
            c.ok(got.shape == ref.shape, f'{what}: shape {got.shape}')
            c.close(got[:, rest], ref[:, rest], f'{what}: the other columns', tol)
            c.ev('other columns', len(rest))
        else:
            c.ev('refused in transform:' + type(got).__name__)
    else:
        c.ev('refused:' + type(r).__name__)
    if name != 'Log':  # the same object, fitted again
        o.reset()
        o.configure(gen.mat(c, a))
        c.close(arr(o.transform(gen.plain(X))), arr(f.transform(gen.plain(X))), f'{what}, then fitted on good data', 1e-10)
        c.ev('recovered')
    same_process(c, before, what)
    c.sig(name, repr(t), fault, a, j)
    c.ev('column-wise:' + name)
    c.ev('fault:' + fault)


def fitting(c):
    """Faults in all of the data of a fit, then the same object on good data."""
    name = trafo.NAMES[c.index % len(trafo.NAMES)]
    t = trafo.spec(c, name)
    a = trafo.data(c, name)
    fault = c.pick(FAULTS)
    b = spoil(c, a, fault)
    if b is None:
        k = {'one row': 1, 'two rows': 2}.get(fault) or c.int(3, 5)
        b = a[:, :1] if fault == 'one column' else a[:k]
    o, f = t.build(), t.build()
    before = process()
    what = f'{t} on {b.shape} with {fault}'
    m = gen.mat(c, b)
    copy = m.data.copy()
    outcomes = []
    steps = [('configure', lambda: o.configure(m)), ('transform', lambda: o.transform(m)),
             ('inverse_transform', lambda: o.inverse_transform(o.transform(m)))]
    for k, step in steps[c.int(0, 1):] + ([steps[1]] if c.chance(0.3) else []):
        if k == 'inverse_transform' and not t.invertible():
            continue
        h, r = ends(c, f'{k} of {what}', step)
        outcomes.append(f'{k} {h}')
        if h == 'gave' and r is not None:
            real(c, r, f'{k} of {what}')
        c.ok(np.array_equal(m.data, copy, equal_nan=True), f'{k} of {what}: the caller\'s matrix changed')
        c.ev(f'{k}:{h}')
    same_process(c, before, what)
    o.reset()
    h, got = ends(c, f'{what}, then fitted on good data', o.configure, gen.plain(a))
    c.ok(h == 'gave', f'{what}, then fitted on good data: {got!r}')
    f.configure(gen.plain(a))
    c.close(arr(o.transform(gen.plain(a))), arr(f.transform(gen.plain(a))), f'{what}, then fitted on good data', 1e-10)
    if t.invertible() and not (name == 'FFT' and len(a) > 1) and name != 'RowNorm':
        y = f.transform(gen.plain(a))
        c.close(arr(o.inverse_transform(y)), arr(f.inverse_transform(y)), f'{what}, inverse after good data', 1e-10)
    c.sig(name, repr(t), fault, a)
    c.ev('fitted:' + name)
    c.ev('fault:' + fault)
    c.sample({'transformation': repr(t), 'fault': fault, 'outcome': outcomes})


# ---- matrices --------------------------------------------------------------------------------------------------
def matrices(c):
    """Decompositions of matrices with bad contents end, and the matrix is as good as new once it is repaired."""
    n = c.int(1, 8)
    fault = c.pick(['nan', 'inf', 'cell 1e300', 'nan row', 'nan column', 'zero', 'zero row', 'all equal rows', '1e300',
                    '1e-310', 'mixed', 'equal columns'])
    good = gen.well_conditioned(c, n, n) + np.eye(n)
    if np.linalg.cond(good) > 1e4:
        raise Skip()
    if c.chance(0.4):
        good = good @ good.T
    bad = spoil(c, good, fault)
    m = gen.mat(c, bad)
    ops = dict(eigenvalues=lambda: m.get_eigenvalues(), eigenvectors=lambda: m.get_eigenvectors(),
               singular_values=lambda: m.get_singular_values(), svd_U=lambda: m.svd_U(), svd_V=lambda: m.svd_V(),
               inverse=lambda: m.inverse(), pseudo_inverse=lambda: m.pseudo_inverse(),
               dominant=lambda: m.get_dominant_eigenvector(),
               solve=lambda: helper.solve(m, Matrix(np.ones((n, 1)))))
    before = process()
    asked = [k for k in ops if c.chance(0.6)]
    for k in asked:
        copy = m.data.copy()
        h, r = ends(c, f'{k} of {bad.tolist()!r:.200}', ops[k])
        c.ok(np.array_equal(m.data, copy, equal_nan=True), f'{k} of a matrix with {fault} changed it')
        c.ev(f'{k}:' + h)
    same_process(c, before, f'{asked} of a matrix with {fault}')
    r = c.int(0, 1)
    for i in range(n):
        if r:
            m.set_row(i, Matrix(good[[i]].copy()))
        else:
            for j in range(n):
                m.set(i, j, float(good[i, j]))
    what = f'matrix with {fault}, repaired'
    scale = np.abs(good).max() * n
    v, w = m.get_eigenvalues().data.ravel(), m.get_eigenvectors().data
    c.ok(np.abs(good @ w - w * v).max() <= 1e-7 * scale, f'{what}: eigen decomposition')
    s = np.sort(np.linalg.svd(good, compute_uv=False))
    c.close(np.sort(m.get_singular_values().data.ravel())[None], s[None], f'{what}: singular values', 1e-8)
    c.close(m.inverse().data @ good, np.eye(n), f'{what}: inverse', 1e-7)
    c.close(m.pseudo_inverse().data @ good, np.eye(n), f'{what}: pseudo inverse', 1e-7)
    c.close(good @ helper.solve(m, Matrix(np.ones((n, 1)))).data, np.ones((n, 1)), f'{what}: solve', 1e-7)
    c.sig(fault, bad, asked)
    c.ev('fault:' + fault)


SCENARIOS = [('training', training, 850, 20000), ('model_rows', model_rows, 600, 12000), ('trafo_rows', trafo_rows, 660, 12000),
             ('filter_rows', filter_rows, 300, 4000), ('columns', columns, 480, 9000), ('fitting', fitting, 480, 12000),
              ('matrices', matrices, 400, 8000)]
