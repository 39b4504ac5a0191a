"""C21: the specialised regressors against independent implementations of their methods, and in their documented limits."""
import numpy as np

from wai.ma.algorithm.pls import (DIPLS, NIPALS, OPLS, PLS1, PRM, SIMPLS, VCPLS, CCARegression, KernelPLS, SparsePLS)
from wai.ma.core import PreprocessingType

from .. import gen, instr, ref, zoo
from ..common import Skip, arr, is_close

RULE = ('every specialised regressor with random hyper-parameters, preprocessing types and data (domains of different '
        'sizes, more predictors than rows, default settings), judged on training and unseen rows; distinct: different '
        '(model, parameters, data)')
ASSUMPTIONS = ['scores whose sign the method leaves open are compared up to the sign of each component',
               'semi-supervised DIPLS divides the target covariance by the number of labelled target rows - 1',
               'iterative models are run to convergence (tol 1e-13 / 1e-24); components whose direction the data do not '
               'determine (ties, exhausted response or predictors) are not judged', 'relative error 1e-6 (1e-5 for PRM, '
               'KernelPLS and VCPLS; 2e-2 for VCPLS with later components or wide data, which the method computes from the inverse of a '
               'numerically singular matrix)']
PREP = {0: PreprocessingType.NONE, 1: PreprocessingType.CENTER, 2: PreprocessingType.STANDARDIZE}


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def made(cls, prep=None, **kw):
    o = cls()
    for k, v in kw.items():
        setattr(o, k, v)
    if prep is not None:
        o.preprocessing_type = PREP[prep]
    return o


def fit(c, o, x, y, what):
    msg = c.call(f'training of {what}', o.initialize, gen.mat(c, x), gen.mat(c, y))
    c.ok(msg is None, f'{what}: reported {msg!r}')
    return o


def predict(c, o, x, what):
    return arr(c.call(f'predict of {what}', o.predict, gen.mat(c, x)))


def transform(c, o, x, what):
    return arr(c.call(f'transform of {what}', o.transform, gen.mat(c, x)))


def unseen(c, x, least=1):
    return x[[c.int(0, len(x) - 1) for _ in range(c.int(least, least + 3))]] + x.std(0) * c.rng.normal(size=x.shape[1])


def aligned(got, exp):
    """exp with the sign of every column chosen to match got."""
    if got.shape != exp.shape:
        return exp
    s = np.sign((got * exp).sum(0))
    return exp * np.where(s == 0, 1.0, s)


def block(c, q=1, wide=0.2, cond=12.0):
    if c.chance(wide):
        n, p = c.int(7, 11), c.int(12, 30)
    else:
        p = c.int(3, 9)
        n = gen.rows(c, p + 4, 30)
    x, y = gen.regression(c, n, p, q, noise=c.pick([0.05, 0.2, 0.5]), cond=cond)
    return x, y


class Judge:
    """Compares predictions and scores with the method, or else with the model of a finding."""

    def __init__(self, c, what, o, y, tol=1e-6):
        self.c, self.what, self.o, self.tol, self.ys = c, what, o, tol, np.abs(y).max()

    def predictions(self, rows, exp, known=None, kf=None):
        self.one(predict(self.c, self.o, rows, self.what), exp, 'predictions', known, kf,
                 max(self.ys, np.abs(exp).max()))

    def scores(self, rows, exp, known=None, kf=None, signs=False, scale=None):
        got = transform(self.c, self.o, rows, self.what)
        if signs:
            exp = aligned(got, exp)
            known = None if known is None else aligned(got, known)
        self.one(got, exp, 'scores', known, kf, np.abs(exp).max() if scale is None else scale)

    def one(self, got, exp, lab, known, kf, scale):
        if known is not None and not is_close(got, exp, self.tol, scale) \
                and is_close(got, known, self.tol, max(scale, np.abs(known).max())):
            self.c.known(kf, f'{self.what}: {lab}')
            self.c.checks += 1
            return
        self.c.close(got, exp, f'{self.what}: {lab}', self.tol, scale)


# ---- orthogonal signal correction ---------------------------------------------------------------------------------------
def base_model(c, left):
    """(name, object or None for the default, reference: (X, y) -> prediction function)"""
    name = c.pick(['default', 'PLS1', 'SIMPLS', 'NIPALS', 'KernelPLS', 'VCPLS', 'SparsePLS', 'OPLS'])
    prep = c.int(0, 2)
    k = c.int(1, max(1, min(3, left)))

    def chain(inner):
        def f(X, y):
            px, py = ref.Prep(prep, X), ref.Prep(prep, y)
            m = inner(px(X), py(y))
            return lambda q: py.inverse(m(px(q)))
        return f

    def sound(m):
        tt = (m.T ** 2).sum(0)
        if tt.min() < 1e-6 * tt.max():
            raise Skip()
        return m.predict
    if name == 'default':
        prep = 0
        return name, None, chain(lambda X, y: sound(ref.Pls1(X, y, 5)))
    if name == 'PLS1' or name == 'SIMPLS':
        cls = PLS1 if name == 'PLS1' else SIMPLS
        return name, made(cls, prep, num_components=k), chain(lambda X, y: sound(ref.Pls1(X, y, k)))
    if name == 'NIPALS':
        return name, made(NIPALS, prep, num_components=k), chain(lambda X, y: ref.Nipals(X, y, k).predict)
    if name == 'KernelPLS':
        note, kern = zoo.kernel(c, True)
        return name, made(KernelPLS, prep, num_components=k, kernel=kern()), chain(
            lambda X, y: sound(ref.Pls1(X - X.mean(0), y - y.mean(0), k)) and
            (lambda q: ref.Pls1(X - X.mean(0), y - y.mean(0), k).predict(q - X.mean(0)) + y.mean(0)))
    if name == 'VCPLS':
        lam = c.pick([0.1, 1.0])
        return name, made(VCPLS, prep, num_components=1, lambda_=lam), chain(
            lambda X, y: ref.Pls1(X, y, 1, ref.vc_weights(lam)).predict)
    if name == 'SparsePLS':
        lam = c.pick([0.1, 0.5])
        return name, made(SparsePLS, prep, num_components=k, lambda_=lam), chain(
            lambda X, y: ref.Spls(X, y, k, lam).predict)
    kb = 1

    def nested(X, y):
        o = ref.Opls(X, y, 1)
        m = ref.Pls1(o.transform(X), y, kb)
        return lambda q: m.predict(o.transform(q))
    return name, made(OPLS, prep, num_components=1, base_PLS=made(PLS1, num_components=kb)), chain(nested)


def opls(c):
    x, y = block(c)
    k = c.pick([1, 1, 2, 3])
    prep = c.int(0, 2)
    left = min(x.shape[1], len(x) - 1) - k
    name, base, bref = base_model(c, left)
    if name == 'VCPLS' and len(x) < x.shape[1]:
        raise Skip()
    if left < (5 if name == 'default' else 2):
        raise Skip()
    o = made(OPLS, prep, num_components=k)
    if base is not None:
        o.base_PLS = base
    what = f'OPLS ({k} components, preprocessing {prep}, base {name}) on {x.shape}'
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    X, Y = px(x), py(y)
    m = ref.Opls(X, Y, k)
    tt = (m.T ** 2).sum(0)
    if tt.min() < 1e-5 * (X ** 2).sum():
        raise Skip()
    right = bref(m.E, Y)
    wrong = bref(m.at_once(X), Y) if k > 1 else None
    fit(c, o, x, y, what)
    j = Judge(c, what, o, y, 2e-2 if name == 'VCPLS' else 1e-6)
    for rows in (x, unseen(c, x)):
        Z = px(rows)
        j.scores(rows, m.transform(Z), m.at_once(Z) if k > 1 else None, 'KF12', scale=np.abs(Z).max())
        j.predictions(rows, py.inverse(right(m.transform(Z))), None if wrong is None else py.inverse(wrong(m.at_once(Z))),
                      'KF12')
    c.ev(f'OPLS base {name} components {k}')
    c.sig('opls', what, x, y)
    c.sample({'model': what})


# ---- domain-invariant ---------------------------------------------------------------------------------------------------
def dipls(c):
    p = c.int(2, 8)
    ns, nt, nu = gen.rows(c, p + 2, 25, 150), gen.rows(c, p + 2, 25, 150), gen.rows(c, 1, 8, 100)
    mode = ('unsupervised', 'supervised', 'semisupervised')[c.index % 3]
    k = c.int(1, min(4, p))
    prep = c.int(0, 2)
    lam = c.pick([1.0, 0.01, 0.5, 5.0, 100.0, -0.5, -3.0, 1e-8, -1e-8])
    xs, ys = gen.regression(c, ns, p, cond=8.0)
    xt, yt = gen.regression(c, nt, p, cond=8.0)
    xu = gen.well_conditioned(c, nu + p + 1, p, 8.0)[:nu]
    if c.chance(0.4):  # domains that share a relation and differ by an offset
        b = c.rng.normal(size=(p, 1))
        xt = xt + c.rng.normal(size=p) * 2
        ys, yt = xs @ b + 0.1 * c.rng.normal(size=(ns, 1)), xt @ b + 0.1 * c.rng.normal(size=(nt, 1))
    o = made(DIPLS, prep, num_components=k)
    if lam != 1.0 or c.chance(0.5):
        o.lambda_ = lam
    what = f'DIPLS {mode} ({k} components, lambda {lam}, preprocessing {prep}) on {ns}+{nt}+{nu} rows of {p}'
    m = ref.Dipls(xs, xt, ys, k, lam, mode, yt, xu, None, prep)
    for t in (m.T, m.Ts, m.Tt):
        tt = (t ** 2).sum(0)
        if tt.min() < 1e-5 * tt.max():
            raise Skip()
    g = lambda a: gen.mat(c, a)  # noqa: E731
    if mode == 'unsupervised':
        msg = c.call(what, o.initialize_unsupervised, g(xs), g(xt), g(ys))
    elif mode == 'supervised':
        msg = c.call(what, o.initialize_supervised, g(xs), g(xt), g(ys), g(yt))
    else:
        msg = c.call(what, o.initialize_semisupervised, g(xs), g(xt), g(xu), g(ys), g(yt))
    c.ok(msg is None, f'{what}: reported {msg!r}')
    j = Judge(c, what, o, ys)
    for rows in (xs, xt, unseen(c, xt)):
        j.predictions(rows, m.predict(rows))
        j.scores(rows, m.transform(rows))
    c.close(arr(o.get_matrix('Wdi')), m.W, f'{what}: weights', 1e-6, 1.0)
    c.ev(f'DIPLS {mode}' + (' of different sizes' if ns != nt else ''))
    c.sig('dipls', what, xs, xt)


# ---- sparse -------------------------------------------------------------------------------------------------------------
def sparse(c):
    x, y = block(c, wide=0.15)
    p = x.shape[1]
    prep = c.int(0, 2)
    k = c.int(1, min(5, p, len(x) - 2))
    lam = c.pick([0.5, 0.0, 0.1, 0.3, 0.7, 0.9, 0.99])
    o = made(SparsePLS, prep, num_components=k)
    if lam != 0.5 or c.chance(0.5):
        o.lambda_ = lam
    what = f'SparsePLS ({k} components, lambda {lam}, preprocessing {prep}) on {x.shape}'
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    m = ref.Spls(px(x), py(y), k, lam)
    fit(c, o, x, y, what)
    j = Judge(c, what, o, y)
    W = arr(o.get_matrix('W'))
    c.ok(W.shape == (p, k), f'{what}: W is {W.shape}')
    for i in range(k):
        a, b = np.flatnonzero(np.abs(W[:, i]) > 1e-9), np.flatnonzero(np.abs(m.W[:, i]) > 1e-9)
        c.ok(a.tolist() == b.tolist(), f'{what}: component {i} uses the features {a.tolist()}, expected {b.tolist()}')
    for rows in (x, unseen(c, x, p + 1)):  # the deflation of KF10 needs several rows
        Z = px(rows)
        j.predictions(rows, py.inverse(m.predict(Z)))
        t, raw = m.transform(Z, px(x), W), m.raw_transform(Z)
        size = (np.abs(Z) @ np.abs(W)).max(0)
        if np.any(np.abs(raw).max(0) < 1e-5 * size) or np.any(np.abs(m.transform(px(x), px(x), W)).max(0) < 1e-5 * size):
            c.ev('scores lost in rounding')  # the same feature selected again: nothing is left of it
            continue
        j.scores(rows, t, raw if is_close(W, m.W, 1e-5) else None, 'KF10', scale=size.max())
    c.ev(f'SparsePLS lambda {lam}')
    c.ev('features dropped', p - len(m.A))
    c.sig('sparse', what, x, y)


# ---- robust -------------------------------------------------------------------------------------------------------------
def prm(c):
    x, y = block(c, wide=0.3, cond=8.0)
    n, p = x.shape
    if c.chance(0.5):  # outliers
        for _ in range(c.int(1, 3)):
            i = c.int(0, n - 1)
            if c.chance(0.5):
                y[i] += c.pick([-1, 1]) * 10 * y.std()
            else:
                x[i] += 5 * c.rng.normal(size=p)
    prep = c.int(0, 2)
    k = c.int(1, min(4, p, n - 2))
    C = c.pick([4.0, 1.0, 2.0, 20.0, -4.0, -1.5])  # only its magnitude matters
    o = made(PRM, prep, num_components=k)
    if C != 4.0 or c.chance(0.5):
        o.C = C
    what = f'PRM ({k} components, C {C}, preprocessing {prep}) on {x.shape}'
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    if p > n and prep:
        raise Skip()  # centred wide data have no full rank: the projection is not determined
    X, Y = px(x), py(y)
    iters = c.pick([500, 500, 1, 2, 3, 5, 0])
    if iters != 500:
        o.max_iter = iters
    # a published loop that is still moving after the limit is judged all the same: the limit is a parameter
    tol = c.pick([1e-6, 1e-6, 1e-3, 1e-1, 10.0])
    if tol != 1e-6:
        o.tol = tol
    wrong = ref.Prm(X, Y, k, C, tol, iters, inverted=True)
    try:
        right = ref.Prm(X, Y, k, C, tol, iters)
    except (Skip, FloatingPointError):
        right = wrong
    if wrong.iterations > 8:
        raise Skip()  # the loop of KF8 does not converge: rounding errors grow from pass to pass
    c.ev('PRM passes', wrong.iterations)
    if not all(np.all(np.isfinite(v.coef)) for v in (right, wrong)) or np.linalg.cond(wrong.R) > 1e6:
        raise Skip()
    fit(c, o, x, y, what)
    j = Judge(c, what, o, y, 1e-5)
    for rows in (x, unseen(c, x)):
        Z = px(rows)
        j.predictions(rows, py.inverse(right.predict(Z)), py.inverse(wrong.predict(Z)), 'KF8')
        j.scores(rows, right.transform(Z), wrong.transform(Z), 'KF8')
    for lab, r, w in (('Wr', right.wr, wrong.wr), ('Wx', right.wx, wrong.wx),
                      ('W', right.wr * right.wx, wrong.wr * wrong.wx)):
        j.one(arr(o.get_matrix(lab)), r, f'weights {lab}', w, 'KF8', 1.0)
    c.ev('PRM wide' if p > n else 'PRM tall')
    c.sig('prm', what, x, y)


# ---- variance-constrained -------------------------------------------------------------------------------------------------
def vcpls(c):
    x, y = block(c, wide=0.1, cond=6.0)
    prep = c.int(0, 2)
    lam = c.pick([1.0, 0.0, 0.1, 3.0, 30.0, -0.1, -3.0, -30.0])
    k = c.int(1, min(3, x.shape[1] - 1))
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    X, Y = px(x), py(y)
    if lam == 0.0 or len(x) - 1 < x.shape[1]:
        k = 1  # the first component is the least-squares direction
    m = ref.Pls1(X, Y, k, ref.vc_weights(lam))
    tt = (m.T ** 2).sum(0)
    if tt.min() < 1e-4 * tt.max() or np.linalg.cond(m.P.T @ m.W) > 1e3:
        raise Skip()
    if np.linalg.svd(X, compute_uv=False)[-1] ** 2 < 1e-4:
        raise Skip()  # determined by the tiny ridge
    for _ in range(3 if k > 1 else 0):  # components that react to rounding errors are not judged
        a = ref.Pls1(X * (1 + 3e-14 * c.rng.normal(size=X.shape)), Y, k, ref.vc_weights(lam))
        if not (is_close(aligned(m.T, a.T), m.T, 1e-6) and is_close(a.coef, m.coef, 1e-6)):
            raise Skip()
    o = made(VCPLS, prep, num_components=k)
    if lam != 1.0 or c.chance(0.5):
        o.lambda_ = lam
    what = f'VCPLS ({k} components, lambda {lam}, preprocessing {prep}) on {x.shape}'
    fit(c, o, x, y, what)
    # inverting the deflated, singular covariance (plus 1e-7) costs most of the digits of later components
    j = Judge(c, what, o, y, 1e-5 if k == 1 and x.shape[1] < len(x) else 2e-2)
    for rows in (x, unseen(c, x)):
        Z = px(rows)
        j.predictions(rows, py.inverse(m.predict(Z)))
        j.scores(rows, m.transform(Z), signs=True)
    c.ev(f'VCPLS lambda {lam} components {k}')
    c.sig('vcpls', what, x, y)


# ---- kernel ---------------------------------------------------------------------------------------------------------------
def kpls(c):
    q = c.int(1, 4)
    x, y = block(c, q)
    n = len(x)
    prep = c.int(0, 2)
    k = c.int(1, 4)
    note, kern = zoo.kernel(c)
    o = made(KernelPLS, prep, num_components=k, tol=1e-13)
    default = c.chance(0.1)
    if not default:
        o.kernel = kern()
    kernel = o.kernel
    what = f'KernelPLS ({k} components, {"default" if default else note} kernel, preprocessing {prep}) on {x.shape} and {q} responses'

    def evaluate(A, B):
        b = [gen.plain(r[None, :]) for r in B]
        return np.array([[kernel.apply_vector(gen.plain(r[None, :]), v) for v in b] for r in A], dtype=float)
    if default:  # the automatic width depends on the matrices, not on pairs of rows
        def evaluate(A, B):  # noqa: F811
            return arr(kernel.apply_matrix(gen.plain(A)) if A is B else kernel.apply_matrix(gen.plain(A), gen.plain(B)))
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    m = ref.Kpls(px(x), py(y), k, evaluate)
    fit(c, o, x, y, what)
    j = Judge(c, what, o, y, 1e-5)
    for rows in (x, unseen(c, x)):
        Z = px(rows)
        s = np.abs(m.transform(px(x))).max()
        j.scores(rows, m.transform(Z), m.transform(Z, True), 'KF5', signs=True, scale=max(s, np.abs(m.transform(Z)).max()))
        j.predictions(rows, py.inverse(m.predict(Z)), py.inverse(m.predict(Z, True)), 'KF5')
    c.ev('KernelPLS ' + ('default' if default else note.split()[0]))
    c.ev('wide' if x.shape[1] > n else 'tall')
    c.sig('kpls', what, x, y)


# ---- canonical ------------------------------------------------------------------------------------------------------------
def cca(c):
    q = c.int(1, 4)
    p = c.int(q, 7)
    n = gen.rows(c, p + q + 4, 40)
    x, y = gen.regression(c, n, p, q, noise=c.pick([0.3, 1.0]), cond=8.0)
    prep = c.int(0, 2)
    k = c.int(1, q)
    norm = c.chance(0.5)
    o = made(CCARegression, prep, num_components=k, norm_Y_weights=norm, tol=1e-24, max_iter=5000)
    what = f'CCARegression ({k} components, norm {norm}, preprocessing {prep}) on {x.shape} and {q} responses'
    m = ref.Nipals(x, y, k, True, norm, cca=True, sep=0.9)
    fit(c, o, x, y, what)
    j = Judge(c, what, o, y)
    for rows in (x, unseen(c, x)):
        j.predictions(rows, m.predict(rows))
        j.scores(rows, m.transform(rows), signs=True)
    e = m.transform_response(y)
    if prep == 0 and e is not None and hasattr(o, 'do_transform_response'):
        got = arr(c.call(what, o.do_transform_response, gen.mat(c, y)))
        c.close(got, aligned(got, e), f'{what}: scores of responses', 1e-5, np.abs(e).max())
        c.ev('scores of responses')
    c.ev(f'CCARegression {q} responses {k} components')
    c.sig('cca', what, x, y)


# ---- limits ---------------------------------------------------------------------------------------------------------------
def limits(c):
    which = ('sparse', 'robust', 'opls', 'kernel', 'vcpls', 'dipls')[c.index % 6]
    x, y = block(c, wide=0.0, cond=8.0)
    n, p = x.shape
    xq = unseen(c, x)
    k = c.int(1, min(4, p - 1))
    prep = c.int(0, 2)
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    ref_tt = (ref.Pls1(ref.Prep(2, x)(x), ref.Prep(2, y)(y), k + 1).T ** 2).sum(0)
    if ref_tt.min() < 1e-6 * ref_tt.max():
        raise Skip()
    what = f'{which} ({k} components, preprocessing {prep}) on {x.shape}'
    tol = 1e-6
    if which == 'sparse':
        ref.Spls(px(x), py(y), k, 0.0)
        a = made(SparsePLS, prep, num_components=k, lambda_=0.0)
        b = made(NIPALS, prep, num_components=k)
    elif which == 'robust':
        a = made(PRM, prep, num_components=k, C=c.pick([1e9, -1e9, 1e12]))
        b = made(SIMPLS, prep, num_components=k)
    elif which == 'opls':  # one orthogonal component saves the predictive model one
        a = made(OPLS, prep, num_components=1, base_PLS=made(PLS1, num_components=k))
        b = made(PLS1, prep, num_components=k + 1)
    elif which == 'kernel':
        note, kern = zoo.kernel(c, True)
        a = made(KernelPLS, prep, num_components=k, kernel=kern())
        b = made(SIMPLS, max(prep, 1), num_components=k)
    elif which == 'vcpls':  # without the variance term the first component is the least-squares direction
        a, b = made(VCPLS, prep, num_components=1, lambda_=0.0), made(PLS1, prep, num_components=p)
        full = ref.Pls1(px(x), py(y), p)
        if (full.T ** 2).sum(0).min() < 1e-6 * (full.T ** 2).sum(0).max():
            raise Skip()
        tol = 1e-5
    else:  # no penalty: centred PLS on all the rows
        a = made(DIPLS, prep, num_components=k, lambda_=1e-8)
        b = made(PLS1, max(prep, 1), num_components=k)
    if which == 'dipls':
        s = c.int(3, n - 3)
        msg = c.call(what, a.initialize_supervised, gen.mat(c, x[:s]), gen.mat(c, x[s:]), gen.mat(c, y[:s]),
                     gen.mat(c, y[s:]))
        c.ok(msg is None, f'{what}: reported {msg!r}')
        tol = 1e-4
    else:
        fit(c, a, x, y, what)
    fit(c, b, x, y, what)
    e = predict(c, b, xq, what)
    c.close(predict(c, a, xq, what), e, f'{what}: differs from {type(b).__name__}', tol, max(np.abs(y).max(), np.abs(e).max()))
    c.ev('limit ' + which)
    c.sig('limits', what, x, y)


SCENARIOS = [('opls', opls, 700, 14000), ('dipls', dipls, 700, 14000), ('sparse', sparse, 500, 10000),
             ('prm', prm, 500, 10000), ('vcpls', vcpls, 500, 10000), ('kpls', kpls, 400, 8000), ('cca', cca, 500, 8000),
             ('limits', limits, 600, 9000)]
