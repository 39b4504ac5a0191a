"""C17: PLS regressions against reference solutions (deflation, Krylov space, scikit-learn) and each other."""
import numpy as np
from sklearn.cross_decomposition import PLSCanonical, PLSRegression

from wai.ma.algorithm.pls import NIPALS, PLS1, SIMPLS, DeflationMode, KernelPLS
from wai.ma.core import PreprocessingType
from wai.ma.transformation.kernel import LinearKernel

from .. import gen, instr, ref, zoo
from ..common import Skip, arr, is_close

RULE = ('well-conditioned data sets (more rows than columns and the reverse, single predictors, many responses) with '
        'every admissible number of components, each model judged on training and unseen rows; distinct: different '
        '(relation, models, shape, components, data)')
ASSUMPTIONS = ['components whose direction is not determined by the data (ties, exhausted response or predictors) are '
               'not judged', 'NIPALS is run to convergence (tol=1e-24, max_iter=5000) when several responses are used',
               'agreement up to a relative error of 1e-6 of the response scale']


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report
PREP = {0: PreprocessingType.NONE, 1: PreprocessingType.CENTER, 2: PreprocessingType.STANDARDIZE}


def block(c, q=1, wide=True):
    r = c.rng.random()
    if r < 0.1:
        n, p = gen.rows(c, 3, 20), 1
    elif r < 0.25 and wide:
        n, p = c.int(5, 10), c.int(11, 40)
    elif r < 0.35:
        n, p = gen.rows(c, 30, 90, huge=1500), c.int(2, 12)
    else:
        p = c.int(2, 8)
        n = c.int(p + 2, 25)
    x, y = gen.regression(c, n, p, q, noise=c.pick([0.02, 0.1, 0.5]), cond=12.0)
    if c.chance(0.2):
        x, y = x * c.pick([1e-3, 1e3]), y * c.pick([1e-2, 1e4])
    return x, y


def unseen(c, x):
    return x[[c.int(0, len(x) - 1) for _ in range(c.int(1, 4))]] + x.std(0) * c.rng.normal(size=x.shape[1])


def made(cls, **kw):
    o = cls()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def fit(c, o, x, y, what):
    msg = c.call(f'training of {what}', o.initialize, gen.mat(c, x), gen.mat(c, y))
    c.ok(msg is None, f'{what}: reported {msg!r}')
    return o


def predict(c, o, x, what):
    return c.call(f'predict of {what}', o.predict, gen.mat(c, x)).data


def kinds(c):
    """(name, factory, preprocessing the model amounts to)"""
    prep = c.int(0, 2)
    return [('PLS1', lambda k: made(PLS1, num_components=k, preprocessing_type=PREP[prep]), prep),
            ('SIMPLS', lambda k: made(SIMPLS, num_components=k, preprocessing_type=PREP[prep]), prep),
            ('NIPALS', lambda k: made(NIPALS, num_components=k, preprocessing_type=PREP[prep],
                                      norm_Y_weights=bool(k % 2)), 2),
            ('KernelPLS', lambda k: made(KernelPLS, num_components=k, preprocessing_type=PREP[prep],
                                         kernel=LinearKernel()), max(prep, 1))]


def max_components(x, prep):
    return min(x.shape[1], len(x) - (1 if prep else 0))


def ref_predict(x, y, k, prep, xq):
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    m = ref.Pls1(px(x), py(y), k)
    tt = (m.T ** 2).sum(0)
    if tt.min() < 1e-6 * tt.max() or np.any(np.abs(m.b[:, 0]) * np.sqrt(tt) < 1e-5 * np.abs(py(y)).max()):
        raise Skip()  # the next direction is lost in rounding
    return py.inverse(m.predict(px(xq))), m, px, py


def single(c):
    x, y = block(c)
    name, f, prep = kinds(c)[c.index % 4]
    k = min(c.int(1, 6), max_components(x, prep))
    xq = unseen(c, x)
    what = f'{name} ({k} components, preprocessing {prep}) on {x.shape}'
    o = fit(c, f(k), x, y, what)
    scale = np.abs(y).max()
    for rows, lab in ((x, 'training rows'), (xq, 'unseen rows')):
        exp, m, px, py = ref_predict(x, y, k, prep, rows)
        c.close(predict(c, o, rows, what), exp, f'{what}: {lab}', 1e-6, max(scale, np.abs(exp).max()))
    # the same solution from its variational definition and from scikit-learn
    kr = py.inverse(px(xq) @ ref.krylov(px(x), py(y), k))
    c.close(predict(c, o, xq, what), kr, f'{what}: Krylov solution', 1e-5, max(scale, np.abs(kr).max()))
    if prep and k <= min(x.shape[1], len(x) - 1, 5):
        sk = PLSRegression(n_components=k, scale=prep == 2, tol=1e-14, max_iter=2000).fit(x, y).predict(xq)
        c.close(predict(c, o, xq, what), sk.reshape(-1, 1), f'{what}: scikit-learn', 1e-5,
                max(scale, np.abs(sk).max()))
        c.ev('scikit-learn comparison')
    c.sig('single', name, k, prep, x, y)
    c.ev(f'{name} prep {prep}')
    c.sample({'model': what, 'max_components': max_components(x, prep)})


def multi(c):
    q = c.int(1, 5)
    p = c.int(2, 9)
    n = gen.rows(c, max(p + 2, 8), 40, huge=1500)
    if c.chance(0.15):
        n, p = c.int(7, 10), c.int(11, 25)
    x, y = gen.regression(c, n, p, q, noise=c.pick([0.05, 0.3]), cond=12.0)
    if c.chance(0.4):  # one response dominates, so the dominant direction is well separated
        y = y @ (np.eye(q) + 0.3 * c.rng.normal(size=(q, q)))
    canonical = c.chance(0.4)
    norm = c.chance(0.5)
    k = min(c.int(1, 4), p, n - 1)
    if canonical:
        k = min(k, q)
    where = None
    if c.chance(0.3):  # a response that never changes, in any position, and possibly such a predictor
        where = c.int(0, q)
        y = np.insert(y, where, c.pick([0.0, 1.0, -3.5]), axis=1)
        q += 1
        if c.chance(0.3):
            x = np.insert(x, c.int(0, p), c.pick([0.0, 2.0]), axis=1)
        c.ev('constant response first' if where == 0 else 'constant response later')
    mode = DeflationMode.CANONICAL if canonical else DeflationMode.REGRESSION
    what = f'NIPALS ({k} components, {mode.name}, norm_Y_weights={norm}) on {x.shape} and {q} responses'
    loose = c.chance(0.25)  # the default stopping rule, and data on which it is good enough
    m = ref.Nipals(x, y, k, canonical, norm, sep=0.4 if loose else 0.9)
    o = made(NIPALS, num_components=k, deflation_mode=mode, norm_Y_weights=norm)
    if not loose:
        o.tol, o.max_iter = 1e-24, 5000
    fit(c, o, x, y, what)
    tol = 1e-2 if loose else 1e-6
    c.ev('default stopping rule' if loose else 'run to convergence')
    xq = unseen(c, x)
    scale = np.abs(y).max()
    for rows in (x, xq):
        e = m.predict(rows)
        c.close(predict(c, o, rows, what), e, what, tol, max(scale, np.abs(e).max()))
    latent(c, o, m, xq, y, what, tol)
    if where is not None:
        c.close(predict(c, o, xq, what)[:, [where]], np.full((len(xq), 1), y[0, where]),
                f'{what}: the constant response', 1e-9, max(1.0, abs(y[0, where])))
    elif q > 1:  # the order in which the responses are given does not matter
        s = c.perm(q)
        o2 = made(NIPALS, num_components=k, deflation_mode=mode, norm_Y_weights=norm, tol=o.tol, max_iter=o.max_iter)
        c.close(predict(c, fit(c, o2, x, y[:, s], what), xq, what), m.predict(xq)[:, s],
                f'{what}: responses reordered', tol, max(scale, np.abs(m.predict(xq)).max()))
        c.ev('responses reordered')
    sk = (PLSCanonical if canonical else PLSRegression)(n_components=k, scale=True, tol=1e-20, max_iter=20000)
    try:
        sk.fit(x, y)
        e = sk.predict(xq).reshape(len(xq), q)
    except Exception:
        e = None
    if e is not None and (not canonical or norm):  # canonical predictions of scikit-learn are those of unit y weights
        ok = is_close(m.predict(xq), e, 1e-6, max(scale, np.abs(e).max()))
        c.ev('scikit-learn agrees with the reference' if ok else 'scikit-learn differs from the reference')
    c.sig('multi', k, canonical, norm, x, y)
    c.ev(f'multi {mode.name} q={q}')


def latent(c, o, m, xq, y, what, tol):
    """The scores, loadings and projections; the components are determined up to their signs."""
    T = c.shape(o.get_matrix('T'), *m.T.shape, f'{what}: T')
    sign = np.where((T * m.T).sum(0) < 0, -1.0, 1.0)
    for name, e in (('T', m.T), ('U', m.U), ('P', m.P), ('Q', m.Q)):
        c.close(arr(o.get_matrix(name)), e * sign, f'{what}: {name}', tol, np.abs(e).max())
    c.close(arr(o.get_loadings()), m.P * sign, f'{what}: loadings', tol, np.abs(m.P).max())
    e = m.transform(xq) * sign
    c.close(arr(c.call(what, o.transform, gen.mat(c, xq))), e, f'{what}: scores of other rows', tol,
            max(np.abs(e).max(), np.abs(m.T).max()))
    c.ev('scores and loadings of NIPALS')
    e = m.transform_response(y)
    if e is not None and hasattr(o, 'do_transform_response'):
        e = e * (sign if e.shape[1] == len(sign) else 1.0)
        c.close(arr(c.call(what, o.do_transform_response, gen.mat(c, y))), e, f'{what}: scores of responses', tol * 10,
                np.abs(e).max())
        c.ev('scores of responses')


def limited(c):
    """The iteration for several responses stopped early: by its tolerance or by its number of passes."""
    q = c.int(2, 5)
    p = c.int(2, 8)
    n = gen.rows(c, max(p + 2, 8), 30)
    x, y = gen.regression(c, n, p, q, noise=c.pick([0.1, 0.5, 2.0]), cond=12.0)
    canonical, norm = c.chance(0.4), c.chance(0.5)
    k = c.int(1, min(3, q, p))
    if c.chance(0.5):
        tol, limit = 0.0, c.pick([0, 1, 2, 3, 7, 20, 60])
    else:
        tol, limit = c.pick([1e-6, 1e-2, 1e-4, 1e-9, 1e-14]), 500
    what = (f'NIPALS ({k} components, canonical={canonical}, norm_Y_weights={norm}, tol={tol}, max_iter={limit}) '
            f'on {x.shape} and {q} responses')
    o = made(NIPALS, num_components=k, norm_Y_weights=norm,
             deflation_mode=DeflationMode.CANONICAL if canonical else DeflationMode.REGRESSION)
    if (tol, limit) != (1e-6, 500):
        o.tol, o.max_iter = tol, limit
    # a limit of n is understood as n passes or as n repetitions after the first pass
    refs = [ref.Nipals(x, y, k, canonical, norm, limit=(tol, m)) for m in (limit + 1, limit) if m > 0]
    fit(c, o, x, y, what)
    xq = unseen(c, x)
    got = predict(c, o, xq, what)
    m = refs[0]
    if len(refs) > 1 and not is_close(got, m.predict(xq), 1e-6, np.abs(y).max()):
        m = refs[1]
    e = m.predict(xq)
    c.close(got, e, what, 1e-6, max(np.abs(y).max(), np.abs(e).max()))
    T = arr(o.get_matrix('T'))
    c.close(T, m.T, f'{what}: scores', 1e-6, np.abs(m.T).max())
    c.sig('limited', tol, limit, k, canonical, norm, x, y)
    c.ev('stopped by the limit' if tol == 0 else 'stopped by the tolerance')


def dependent(c):
    """Predictors that nearly depend on each other: late components are small but count."""
    p = c.int(2, 5)
    n = gen.rows(c, p + 3, 25)
    f = 10.0 ** c.uni(-4, -2)
    x = gen.well_conditioned(c, n, p, 4.0)
    x[:, -1] = x[:, :-1] @ c.rng.normal(size=p - 1) + f * c.rng.normal(size=n)
    b = c.rng.normal(size=(p, 1))
    b[-1] = c.pick([-1, 1]) / f
    y = (x - x.mean(0)) @ b + 0.01 * c.rng.normal(size=(n, 1)) + c.rng.normal()
    name, g, prep = kinds(c)[c.index % 3]
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    m = ref.Pls1(px(x), py(y), p)
    tt = (m.T ** 2).sum(0)
    if tt.min() < 1e-9 * tt.max():
        raise Skip()
    what = f'{name} with all {p} components, preprocessing {prep}, on {x.shape} with dependence {f:.1e}'
    o = fit(c, g(p), x, y, what)
    e = py.inverse(px(x) @ np.linalg.lstsq(px(x), py(y), rcond=None)[0])
    c.close(predict(c, o, x, what), e, what, 1e-4, np.abs(py(y)).max() * py.s.max())
    c.sig('dependent', name, prep, x, y)
    c.ev('nearly dependent ' + name)


def ols(c):
    """As many components as predictors: ordinary least squares."""
    p = c.int(1, 7)
    n = gen.rows(c, p + 2, 30)
    x, y = gen.regression(c, n, p, noise=0.2, cond=6.0)
    name, f, prep = kinds(c)[c.index % 4]
    xq = unseen(c, x)
    what = f'{name} with all {p} components, preprocessing {prep}, on {x.shape}'
    ref_predict(x, y, p, prep, xq)
    o = fit(c, f(p), x, y, what)
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    e = py.inverse(px(xq) @ np.linalg.lstsq(px(x), py(y), rcond=None)[0])
    c.close(predict(c, o, xq, what), e, what, 1e-6, max(np.abs(y).max(), np.abs(e).max()))
    c.sig('ols', name, prep, x, y)
    c.ev('least squares ' + name)
    # the same with several responses
    q = c.int(2, 3)
    Y = np.hstack([y, x @ c.rng.normal(size=(p, q - 1)) + 0.2 * c.rng.normal(size=(n, q - 1))])
    m = ref.Nipals(x, Y, p, sep=0.97)
    o = fit(c, made(NIPALS, num_components=p, tol=1e-20, max_iter=5000), x, Y, what)
    one = np.hstack([np.ones((n, 1)), x])
    e = np.hstack([np.ones((len(xq), 1)), xq]) @ np.linalg.lstsq(one, Y, rcond=None)[0]
    c.close(predict(c, o, xq, what), e, f'NIPALS with all components, {q} responses', 1e-6,
            max(np.abs(Y).max(), np.abs(e).max()))
    assert m is not None


def monotone(c):
    x, y = block(c, wide=False)
    ks = kinds(c)
    name, f, prep = ks[c.index % 4]
    q = 1
    if name == 'NIPALS' and c.chance(0.6):
        q = c.int(2, 4)
        x, y = gen.regression(c, c.int(12, 30), c.int(3, 7), q, noise=0.3, cond=10.0)
    last = None
    for k in range(1, min(max_components(x, prep), 6) + 1):
        if q == 1:
            try:
                ref_predict(x, y, k, prep, x[:1])
            except Skip:
                break
        o = f(k)
        if q > 1:
            o.tol, o.max_iter = 1e-20, 5000
            try:
                ref.Nipals(x, y, k, sep=0.97)
            except Skip:
                break
        fit(c, o, x, y, f'{name} {k}')
        r = (predict(c, o, x, name) - y) / (y.std(0, ddof=1) if name == 'NIPALS' else 1.0)
        sse = float((r ** 2).sum())
        if last is not None:
            c.ok(sse <= last * (1 + 1e-7) + 1e-9 * float((y ** 2).sum()),
                 f'{name}: {k} components fit {x.shape} worse ({sse}) than {k - 1} ({last})')
            c.ev('component added')
        last = sse
    c.sig('monotone', name, x, y)


def symmetry(c):
    """Order of rows and columns, scale of the response."""
    x, y = block(c)
    name, f, prep = kinds(c)[c.index % 4]
    k = min(c.int(1, 5), max_components(x, prep))
    xq = unseen(c, x)
    base, _, _, _ = ref_predict(x, y, k, prep, xq)
    scale = max(np.abs(y).max(), np.abs(base).max())
    what = f'{name} ({k} components) on {x.shape}'
    e = predict(c, fit(c, f(k), x, y, what), xq, what)
    r, s = c.perm(len(x)), c.perm(x.shape[1])
    c.close(predict(c, fit(c, f(k), x[r], y[r], what), xq, what), e, f'{what}: training rows reordered', 1e-6, scale)
    c.close(predict(c, fit(c, f(k), x[:, s], y, what), xq[:, s], what), e, f'{what}: columns reordered', 1e-6, scale)
    a = c.pick([2.0, -1.0, 0.01, -37.5, 1e4])
    c.close(predict(c, fit(c, f(k), x, a * y, what), xq, what), a * e, f'{what}: response times {a}', 1e-6,
            abs(a) * scale)
    # two models on the same data agree
    other, g, prep2 = kinds(c)[c.int(0, 3)]
    xs, ys = ref.Prep(2, x)(x), ref.Prep(2, y)(y)
    k = min(k, max_components(x, 2))
    e, _, _, _ = ref_predict(xs, ys, k, 2, xs)
    c.close(predict(c, fit(c, f(k), xs, ys, what), xs, what), predict(c, fit(c, g(k), xs, ys, other), xs, other),
            f'{name} and {other} on standardised data', 1e-6, np.abs(ys).max())
    c.sig('symmetry', name, k, x, y)
    c.ev('symmetry ' + name)


def coefficients(c):
    """Limiting the retained coefficients keeps the largest ones of each component."""
    x, y = block(c)
    p = x.shape[1]
    prep = c.int(0, 2)
    k = min(c.int(1, 4), max_components(x, prep))
    nc = c.int(1, p + 2)
    ref_predict(x, y, k, prep, x[:1])
    full = fit(c, made(SIMPLS, num_components=k, preprocessing_type=PREP[prep]), x, y, 'SIMPLS')
    W, Q = arr(full.get_matrix('W')), arr(full.get_matrix('Q'))
    o = fit(c, made(SIMPLS, num_components=k, num_coefficients=nc, preprocessing_type=PREP[prep]), x, y, 'SIMPLS')
    srt = np.sort(np.abs(W), axis=0)[::-1]
    if p > 1 and (np.abs(np.diff(srt, axis=0)) < 1e-7 * srt[0]).any():
        raise Skip()

    def keep(m):
        rank = np.argsort(np.argsort(-np.abs(W), axis=0), axis=0)
        return np.where(rank < m, W, 0.0)
    got = arr(o.get_matrix('W'))
    scale = np.abs(W).max()
    what = f'SIMPLS keeping {nc} of {p} coefficients'
    m = nc
    if not is_close(got, keep(nc), 1e-8, scale) and is_close(got, keep(nc + 1), 1e-8, scale):
        m = nc + 1
        c.known('KF6', what)
    c.close(got, keep(m), what, 1e-8, scale)
    px, py = ref.Prep(prep, x), ref.Prep(prep, y)
    xq = unseen(c, x)
    e = py.inverse(px(xq) @ keep(m) @ Q.T)
    c.close(predict(c, o, xq, what), e, f'{what}: prediction', 1e-7, max(np.abs(y).max(), np.abs(e).max()))
    e = px(xq) @ keep(m)
    c.close(c.call(what, o.transform, gen.mat(c, xq)), e, f'{what}: scores', 1e-7, np.abs(px(xq)).max() * scale * p)
    for z in (0, -1):
        a = fit(c, made(SIMPLS, num_components=k, num_coefficients=z, preprocessing_type=PREP[prep]), x, y, 'SIMPLS')
        c.close(arr(a.get_matrix('W')), W, f'SIMPLS with num_coefficients={z}', 1e-10)
    c.sig('coefficients', nc, k, x, y)
    c.ev('limited coefficients')


SCENARIOS = [('single', single, 2400, 30000), ('multi', multi, 1200, 16000), ('limited', limited, 600, 8000),
             ('dependent', dependent, 450, 5000), ('ols', ols, 600, 6000),
             ('monotone', monotone, 320, 3200), ('symmetry', symmetry, 600, 6000),
             ('coefficients', coefficients, 600, 6000)]
