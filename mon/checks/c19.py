"""C19: differential monitor - built-in preprocessing against preprocessing done by the caller."""
import numpy as np

from wai.ma.core import PreprocessingType

from .. import gen, instr, ref, zoo
from ..common import Skip, arr

RULE = ('every PLS model with centering and standardising on data with offsets, scales and constant predictors, against '
        'the same model without preprocessing on data preprocessed by the oracle, and against itself on shifted and '
        'rescaled data; distinct: different (model, parameters, preprocessing, data)')
ASSUMPTIONS = ['agreement up to a relative error of 1e-6 (the two computations round differently)',
               'queried rows have the training value in constant predictor columns']
KINDS = {1: PreprocessingType.CENTER, 2: PreprocessingType.STANDARDIZE}


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


class Map:
    """Centering or standardising with the statistics of the fitting data; constant columns become zero."""

    def __init__(self, kind, X):
        self.m = X.mean(0)
        self.const = np.ptp(X, axis=0) == 0
        self.s = X.std(0, ddof=1) if kind == 2 else np.ones(X.shape[1])
        self.s = np.where(self.const, 1.0, self.s)

    def __call__(self, X):
        Z = (X - self.m) / self.s
        Z[:, self.const] = 0.0
        return Z

    def inverse(self, Y):
        return Y * self.s + self.m


def build(s, **kw):
    o = s.build()
    for k, v in kw.items():
        setattr(o, k, v)
    if s.name in ('NIPALS',):
        o.tol, o.max_iter = 1e-20, 300
    return o


def train(c, s, o, data, what):
    msg = c.call(f'training of {what}', s.train, o, s.mats(c, data))
    c.ok(msg is None, f'{what}: reported {msg!r}')
    return o


def parts(s, d):
    """(rows whose statistics count for the predictors, same for the response)"""
    if s.name == 'DIPLS':
        xs = [d['xs'], d['xt']] + ([d['xu']] if s.mode == 'semisupervised' else [])
        return np.vstack(xs), (d['ys'] if s.mode == 'unsupervised' else np.vstack([d['ys'], d['yt']]))
    return d['x'], d['y']


def mapped(d, fx, fy):
    return {k: (fx(v) if k.startswith('x') else fy(v)) for k, v in d.items()}


def case(c):
    name = zoo.PLS_NAMES[c.index % len(zoo.PLS_NAMES)]
    kind = c.int(1, 2)
    s = zoo.spec(c, name)
    d = s.data(c)
    p = s.predictors(d).shape[1]
    if c.chance(0.5):  # predictors (and responses) in different units
        sc, sh = 10.0 ** c.rng.uniform(-2, 2, size=p), c.rng.normal(size=p) * c.pick([0.0, 5.0, 50.0])
        q = s.response(d).shape[1]
        ry, hy = 10.0 ** c.rng.uniform(-2, 2, size=q), c.rng.normal(size=q) * c.pick([0.0, 5.0, 50.0])
        if kind == 1 or name == 'DIPLS':
            sc, ry = sc ** 0.3, ry ** 0.3
        d = mapped(d, lambda v: v * sc + sh, lambda v: v * ry + hy)
    return name, kind, s, d


def well_posed(s, d, kind):
    """Skips data on which the model itself is ill-defined (its iteration is not converging to one solution)."""
    X, Y = parts(s, d)
    X, Y = Map(kind, X)(X), Map(kind, Y)(Y)
    k = s.params['num_components']
    if s.name == 'NIPALS':
        ref.Nipals(X, Y, k, s.params['deflation_mode'].name == 'CANONICAL', s.params['norm_Y_weights'], sep=0.9)
    elif s.name == 'CCARegression':
        ref.Nipals(X, Y, k, True, s.params['norm_Y_weights'], True, sep=0.9)
    elif s.name == 'VCPLS':
        ref.Pls1(X, Y, k, ref.vc_weights(s.params['lambda_']))


def tolerance(s):
    return {'KernelPLS': 1e-5, 'CCARegression': 1e-5, 'VCPLS': 1e-4}.get(s.name, 1e-6)


def align(s, got, exp, rows=False):
    """Eigenvectors of variance-constrained PLS have no determined sign."""
    if s.name != 'VCPLS' or got.shape != exp.shape:
        return got
    ax = 1 if rows else 0
    sign = np.where((got * exp).sum(ax, keepdims=True) < 0, -1.0, 1.0)
    return got * sign


def equivalence(c):
    name, kind, s, d = case(c)
    const = None
    if c.chance(0.25) and name not in ('NIPALS', 'SparsePLS', 'CCARegression', 'PRM'):
        const = c.int(0, s.predictors(d).shape[1] - 1)
        if s.predictors(d).shape[1] - 1 <= s.params['num_components'] + (1 if name == 'OPLS' else 0):
            const = None
    if const is not None:
        for k in d:
            if k.startswith('x'):
                d[k] = d[k].copy()
                d[k][:, const] = 7.25
    X, Y = parts(s, d)
    if const is None or name == 'VCPLS':
        well_posed(s, d, kind)
    px, py = Map(kind, X), Map(kind, Y)
    what = f'{s} with {KINDS[kind].name}'
    a = train(c, s, build(s, preprocessing_type=KINDS[kind]), d, what)
    b = train(c, s, build(s), mapped(d, px, py), f'{s} without preprocessing')
    rows = s.predictors(d)
    xq = rows[[c.int(0, len(rows) - 1) for _ in range(c.int(2, 5))]]
    xq = xq + 0.4 * rows.std(0) * c.rng.normal(size=xq.shape)
    for q, lab in ((xq, 'unseen rows'), (rows, 'training rows')):
        e = py.inverse(arr(b.predict(gen.mat(c, px(q)))))
        scale = np.abs(np.vstack([e, Y]) - Y.mean(0)).max(0)
        got = arr(a.predict(gen.mat(c, q)))
        c.close(got / scale, e / scale, f'{what}: predictions for {lab}', tolerance(s),
                1.0 + np.abs(Y.mean(0) / scale).max() * 1e-6)
        t = arr(b.transform(gen.mat(c, px(q))))
        c.close(align(s, arr(c.call(what, a.transform, gen.mat(c, q))), t), t, f'{what}: scores of {lab}', tolerance(s), np.abs(t).max())
    # the exposed matrices are those of the preprocessed problem
    for n in a.get_matrix_names():
        ma, mb = a.get_matrix(n), b.get_matrix(n)
        if ma is None or mb is None:
            c.ok(ma is mb, f'{what}: {n} offered only with or only without preprocessing')
            continue
        ma, mb = arr(ma), arr(mb)
        if s.name == 'VCPLS' and n != 'RegVector':
            ma = align(s, ma, mb, rows=n == 'b_hat')
        c.close(ma, mb, f'{what}: {n}', 10 * tolerance(s), max(np.abs(mb).max(), 1e-5))
    c.sig('equivalence', repr(s), kind, X)
    c.ev(f'{name} {KINDS[kind].name}')
    if const is not None:
        c.ev('constant predictor')
    c.sample({'model': what, 'shape': X.shape})


def equivariance(c):
    name, kind, s, d = case(c)
    X, Y = parts(s, d)
    well_posed(s, d, kind)
    p, q = X.shape[1], Y.shape[1]
    hx, hy = c.rng.normal(size=p) * X.std(0) * 3, c.rng.normal(size=q) * Y.std(0) * 3
    rx, ry = np.ones(p), np.ones(q)
    if kind == 2 and c.chance(0.8):
        rx, ry = np.exp(c.rng.uniform(-2, 2, size=p)), np.exp(c.rng.uniform(-2, 2, size=q))
    if c.chance(0.3):
        hx, rx = np.zeros(p), np.ones(p)
    elif c.chance(0.3):
        hy, ry = np.zeros(q), np.ones(q)
    fx, fy = (lambda v: v * rx + hx), (lambda v: v * ry + hy)
    what = f'{s} with {KINDS[kind].name}'
    a = train(c, s, build(s, preprocessing_type=KINDS[kind]), d, what)
    b = train(c, s, build(s, preprocessing_type=KINDS[kind]), mapped(d, fx, fy), what)
    rows = s.predictors(d)
    xq = rows[[c.int(0, len(rows) - 1) for _ in range(c.int(2, 5))]]
    xq = xq + 0.4 * rows.std(0) * c.rng.normal(size=xq.shape)
    e = fy(arr(a.predict(gen.mat(c, xq))))
    scale = np.abs(e - (Y.mean(0) * ry + hy)).max(0) + Y.std(0) * ry
    got = arr(b.predict(gen.mat(c, fx(xq))))
    c.ok(got.shape == e.shape and bool(np.all(np.abs(got - e) <= tolerance(s) * scale)),
         f'{what}: predictions do not follow a change of units: {got.tolist()!r:.300} expected {e.tolist()!r:.300}')
    t = arr(a.transform(gen.mat(c, xq)))
    c.close(align(s, arr(b.transform(gen.mat(c, fx(xq)))), t), t, f'{what}: scores after a change of units', tolerance(s),
            np.abs(t).max())
    c.sig('equivariance', repr(s), kind, X)
    c.ev(f'units {name} {KINDS[kind].name}')


SCENARIOS = [('equivalence', equivalence, 1600, 24000), ('equivariance', equivariance, 1000, 12000)]
