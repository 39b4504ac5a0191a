"""C24: the filter matrices of GLSW, EPO and their y-gradient variants against the interference covariance."""
import numpy as np

from wai.ma.algorithm.glsw import EPO, GLSW, YGradientEPO, YGradientGLSW
from wai.ma.core.matrix import Matrix

from .. import gen, instr
from ..common import Skip, arr, is_close

try:
    from wai.ma.transformation._YGradientGLSWSavitzkyGolayFilter import YGradientGLSWSavitzkyGolayFilter as Gradient
except ImportError:
    Gradient = None

RULE = ('matched data sets of all shapes (fewer rows than columns, identical sets, interference in a few directions), '
        'predictors with responses in any order, all alphas, N below and above the number of columns; distinct: different '
        '(filter, parameters, data)')
ASSUMPTIONS = ['EPO: data whose dominant N directions are not separated from the rest are outside the domain',
               'responses with ties are outside the domain (their order is free)',
               'the weight of a direction is judged to 1e-5 of itself plus what rounding of the interference makes of it, '
               'other entries to 1e-8 of the largest weight',
               'gradients are five-point first derivatives with the first and last row repeated, weights 2^(-gradient/sd)']


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def difference(a, b):
    d = (b - b.mean(0)) - (a - a.mean(0))
    return d.T @ d


def gradient(a, sign=1.0):
    e = np.vstack([a[:1], a[:1], a, a[-1:], a[-1:]])
    n = len(a)
    return sign * (2 * e[4:4 + n] + e[3:3 + n] - e[1:1 + n] - 2 * e[:n]) / 10


def weighted(x, y, sign):
    o = np.argsort(y[:, 0], kind='stable')
    g, yd = gradient(x[o], 1.0), gradient(y[o], sign)
    s = yd.std(ddof=1)
    if s < 1e-9 * np.abs(yd).max():
        raise Skip()
    w = 2.0 ** (-yd / s)
    return (g * w).T @ (g * w)


def weights(v, alpha):
    return 1 / np.sqrt(v ** 2 / alpha + 1)


def library_order(C, alpha):
    """Finding KF4: weights in descending order of the singular values, eigenvectors in the order of the decomposition."""
    V = Matrix(C.copy()).get_eigenvalue_decomposition_V().data
    s = np.linalg.svd(C, compute_uv=False)
    return (V * weights(s, alpha)) @ V.T


def matches(G, C, alpha):
    """G has the eigenvectors of C, each with the weight of its interference."""
    v, w = np.linalg.eigh(C)
    d = weights(np.maximum(v, 0), alpha)
    M = w.T @ G @ w
    off = M - np.diag(np.diag(M))
    near = np.append(v, np.clip(np.sqrt(alpha / 2), v.min(), v.max()))  # rounding of an interference moves its weight by
    slope = np.max(np.abs(near) / alpha * weights(near, alpha) ** 3)
    tiny = 1e-14 * len(v) * max(np.abs(v).max(), 0) * slope
    return bool(np.abs(off).max() <= 1e-8 * d.max() + tiny and np.all(np.abs(np.diag(M) - d) <= 1e-5 * d + 1e-13 * d.max() + tiny))


def misordered(c, o, x1, x2, G, C, alpha):
    """G is what finding KF4 makes of C."""
    try:  # the covariance to the last bit, which decides the order
        if is_close(G, library_order(arr(o.get_covariance_matrix(x1, x2)), alpha), 1e-7):
            return True
    except Exception:
        pass
    if is_close(G, library_order(C, alpha), 1e-7):
        return True
    for _ in range(20):  # is the order determined, or an accident of rounding?
        E = c.pick([1e-13, 1e-15]) * c.rng.normal(size=C.shape) * np.abs(C).max()
        if not is_close(library_order(C + E + E.T, alpha), library_order(C, alpha), 1e-6):
            break
    else:
        return False
    s = np.sort(weights(np.linalg.svd(C, compute_uv=False), alpha))
    v = np.sort(np.linalg.eigvalsh((G + G.T) / 2))
    return is_close(v[None, :], s[None, :], 1e-6) and np.abs(G @ C - C @ G).max() <= 1e-6 * np.abs(C).max() * np.abs(G).max()


def common(c, o, G, p, what):
    c.ok(G.shape == (p, p), f'{what}: the filter matrix is {G.shape}')
    c.ok(bool(np.all(np.isfinite(G))), f'{what}: the filter matrix is not finite')
    c.close(G, G.T, f'{what}: the filter matrix is not symmetric', 1e-9)
    for n in (1, c.int(2, 5)):
        z = c.rng.normal(size=(n, p)) * c.pick([1.0, 100.0])
        c.close(c.call(what, o.transform, gen.mat(c, z)), z @ G, f'{what}: transformed rows', 1e-10,
                np.abs(z).max() * max(np.abs(G).max(), 1e-300) * p)


def build(c, cls, alpha, N=None):
    o = cls()
    if alpha != 1e-3 or c.chance(0.5):
        o.alpha = alpha
    if N is not None and (N != 5 or c.chance(0.5)):
        o.N = N
    return o


def pair(c):
    p = c.int(1, 10)
    n = c.int(2, 9) if c.chance(0.3) else gen.rows(c, p + 2, 30, huge=2500)
    kind = c.int(0, 5)
    a = c.rng.normal(size=(n, p))
    if kind == 0:
        b = c.rng.normal(size=(n, p))
    elif kind == 1:  # interference in a few directions
        r = c.int(1, p)
        b = a + c.rng.normal(size=(n, r)) @ c.rng.normal(size=(r, p)) + 2.0
    elif kind == 2:  # an offset only: nothing to filter
        b = a + c.rng.normal(size=p)
    elif kind == 3:
        b = a + c.rng.normal(size=(n, p)) * np.geomspace(1, 1e-3, p)
    elif kind == 4:
        b = a * 1.3 + 0.1 * c.rng.normal(size=(n, p))
    else:
        b = a + 0.01 * c.rng.normal(size=(n, p))
        b[:, c.int(0, p - 1)] = a[:, 0] * 2
    f = c.pick([1.0, 1.0, 0.1, 10.0])
    return a * f + c.pick([0.0, 3.0]), b * f


ALPHAS = (1e-3, 1.0, 100.0, 0.05, 1e4, 1e-6, 1e-9, 1e9)


def glsw(c):
    a, b = pair(c)
    alpha = c.pick(ALPHAS)
    o = build(c, GLSW, alpha)
    what = f'GLSW(alpha {alpha}) of {a.shape}'
    m = gen.mat(c, a), gen.mat(c, b)
    c.ok(c.call(what, o.initialize, *m) is None, f'{what}: training failed')
    G = arr(o.G)
    common(c, o, G, a.shape[1], what)
    C = difference(a, b)
    c.checks += 1
    if matches(G, C, alpha):
        c.ev('weights as specified')
    elif misordered(c, o, *m, G, C, alpha):
        c.known('KF4', what)
    else:
        c.fail(f'{what}: the weights of the interference directions are {np.diag(np.linalg.eigh(C)[1].T @ G @ np.linalg.eigh(C)[1])} '
               f'for interferences {np.linalg.eigvalsh(C)}: G = {G.tolist()!r:.300}')
    c.ev('fewer rows than columns' if len(a) <= a.shape[1] else 'full rank')
    c.sig('glsw', alpha, a, b)
    c.sample({'filter': what})


def projector(C, N, scale=0.0):
    v, w = np.linalg.eigh(C)
    if not v[-1] > 1e-12 * scale:  # no interference beyond rounding
        raise Skip()
    v, w = v[::-1], w[:, ::-1]
    if N < len(v) and not v[N - 1] - v[N] > 1e-4 * v[0]:
        raise Skip()
    return w[:, :N] @ w[:, :N].T


def judge_projector(c, G, C, N, what, C2=None):
    n = min(N, len(C))
    exp = projector(C, n)
    if C2 is not None and not is_close(G, exp, 1e-7, 1.0):
        if is_close(G, projector(C2, n), 1e-7, 1.0):
            c.known('KF15', what)
            exp = projector(C2, n)
    c.close(G, exp, f'{what}: not the projector on the {n} dominant directions', 1e-7, 1.0)
    c.close(G @ G, G, f'{what}: not a projector', 1e-9, 1.0)
    c.close(np.array([[np.trace(G)]]), np.array([[float(n)]]), f'{what}: rank', 1e-9)


def epo(c):
    a, b = pair(c)
    N = c.pick([5, 1, 2, 3, 9, 40])
    o = build(c, EPO, c.pick(ALPHAS), N)
    what = f'EPO(N {N}) of {a.shape}'
    C = difference(a, b)
    projector(C, min(N, len(C)), max(np.abs(a).max(), np.abs(b).max()) ** 2)
    c.ok(c.call(what, o.initialize, gen.mat(c, a), gen.mat(c, b)) is None, f'{what}: training failed')
    G = arr(o.G)
    common(c, o, G, a.shape[1], what)
    judge_projector(c, G, C, N, what)
    c.ev('N above the columns' if N > a.shape[1] else 'N up to the columns')
    c.sig('epo', N, a, b)


def response(c):
    p = c.int(1, 9)
    n = c.int(4, 8) if c.chance(0.2) else gen.rows(c, 8, 30, huge=1500)
    y = c.rng.normal(size=(n, 1)) * c.pick([1.0, 50.0])
    if c.chance(0.3):
        y = np.exp(c.rng.normal(size=(n, 1)))
    if c.chance(0.2):
        y = np.arange(n, dtype=float)[c.rng.permutation(n)].reshape(-1, 1) ** 2 + 0.5
    if c.chance(0.3):  # small or large units
        y = y * c.pick([1e-9, 1e-5, 1e5, 1e9])
    x = c.rng.normal(size=(n, p)) * c.pick([1.0, 5.0]) + y / np.abs(y).max() @ c.rng.normal(size=(1, p)) * c.pick([0.0, 0.3])
    return x, y


def y_glsw(c):
    x, y = response(c)
    alpha = c.pick(ALPHAS)
    o = build(c, YGradientGLSW, alpha)
    what = f'YGradientGLSW(alpha {alpha}) of {x.shape}'
    right, wrong = weighted(x, y, 1.0), weighted(x, y, -1.0)
    m = gen.mat(c, x), gen.mat(c, y)
    c.ok(c.call(what, o.initialize, *m) is None, f'{what}: training failed')
    G = arr(o.G)
    common(c, o, G, x.shape[1], what)
    c.checks += 1
    if matches(G, right, alpha):
        c.ev('weights as specified')
    elif matches(G, wrong, alpha):
        c.known('KF15', what)
    elif misordered(c, o, *m, G, right, alpha):
        c.known('KF4', what)
    elif misordered(c, o, *m, G, wrong, alpha):
        c.known('KF4', what)
        c.known('KF15', what)
    else:
        c.fail(f'{what}: neither the specified filter nor that of a listed finding: {G.tolist()!r:.300}')
    c.sig('y_glsw', alpha, x, y)


def y_epo(c):
    x, y = response(c)
    N = c.pick([5, 1, 2, 3, 9, 40])
    o = build(c, YGradientEPO, c.pick(ALPHAS), N)
    what = f'YGradientEPO(N {N}) of {x.shape}'
    right, wrong = weighted(x, y, 1.0), weighted(x, y, -1.0)
    for C in (right, wrong):
        projector(C, min(N, len(C)))
    c.ok(c.call(what, o.initialize, gen.mat(c, x), gen.mat(c, y)) is None, f'{what}: training failed')
    G = arr(o.G)
    common(c, o, G, x.shape[1], what)
    judge_projector(c, G, right, N, what, wrong)
    c.ev('N above the columns' if N > x.shape[1] else 'N up to the columns')
    c.sig('y_epo', N, x, y)


def order(c):
    """The order of the samples does not matter for either kind."""
    if c.chance(0.5):
        a, b = pair(c)
        cls = c.pick([GLSW, EPO])
        C = difference(a, b)
    else:
        a, b = response(c)
        cls = c.pick([YGradientGLSW, YGradientEPO])
        C = weighted(a, b, -1.0)
    p = a.shape[1]
    N = c.int(1, 6)
    projector(C, min(N, p), max(np.abs(a).max(), np.abs(b).max() if cls in (GLSW, EPO) else 0) ** 2)
    if 'EPO' not in cls.__name__:
        v = np.linalg.eigvalsh(C)
        if p > 1 and np.any(np.diff(v) < 1e-3 * v[-1]):
            raise Skip()
    r = c.perm(len(a))
    g = []
    for i in (list(range(len(a))), r):
        o = build(c, cls, 1.0, N if 'EPO' in cls.__name__ else None)
        c.ok(o.initialize(gen.mat(c, a[i]), gen.mat(c, b[i])) is None, f'{cls.__name__}: training failed')
        g.append(arr(o.G))
    if 'EPO' in cls.__name__:
        c.close(g[1], g[0], f'{cls.__name__}: samples reordered', 1e-6, 1.0)
    else:  # finding KF4 lets rounding choose the order of the weights
        e = [np.sort(np.linalg.eigvalsh((m + m.T) / 2))[None, :] for m in g]
        c.close(e[1], e[0], f'{cls.__name__}: weights with the samples reordered', 1e-6)
    c.sig('order', cls.__name__, a, b)
    c.ev('reordered ' + cls.__name__)


def derivative(c):
    """The gradient transformation offered on its own."""
    if Gradient is None:
        raise Skip()
    n, p = gen.rows(c, 1, 20, huge=1500), gen.rows(c, 1, 6, 80)
    a = gen.values(c, n, p, c.pick(['normal', 'ints', 'offset', 'sorted', 'constant', 'uniform']))
    o = Gradient()
    d = arr(c.call('gradient', o.transform, gen.mat(c, a)))
    e = gradient(a)
    scale = max(np.abs(a).max(), 1e-300)
    if not is_close(d, e, 1e-12, scale) and is_close(d, -e, 1e-12, scale):
        c.known('KF15', f'gradient of {a.shape}')
        e = -e
    c.close(d, e, f'gradient of {a.shape}', 1e-12, scale)
    c.refused(lambda: o.inverse_transform(gen.mat(c, a)), 'inverse of the gradient')
    c.sig('derivative', a)
    c.ev('gradient')


SCENARIOS = [('glsw', glsw, 1600, 30000), ('epo', epo, 1000, 20000), ('y_glsw', y_glsw, 900, 18000),
             ('y_epo', y_epo, 700, 14000), ('order', order, 600, 8000), ('derivative', derivative, 300, 4000)]
