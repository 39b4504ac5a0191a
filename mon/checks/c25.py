"""C25: FastICA sources, components, mixing and reconstruction, and the fixed points of the chosen contrast."""
import numpy as np

from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH

from .. import gen, instr
from ..common import Skip, arr

RULE = ('mixtures of uniform, bimodal, exponential and Laplacian sources of all shapes and scales, every contrast (several '
        'alphas), both schemes, with and without whitening, component counts below, at and above what the data allow, '
        'tolerances from 1e-2 to 1e-12, iteration limits from 1; distinct: different (configuration, data)')
ASSUMPTIONS = ['the kept components do not exceed the rank of the centred data (condition up to 1e6), and their subspace is '
               'judged where the singular values separate it; max_iter is at least 1',
               'without whitening: at least as many samples as features, and stationarity is judged on white data only',
               'a run is known to have converged when the contrast was evaluated less often than max_iter; then one more '
               'step of the fixed-point iteration must turn no component by more than 1000 times the tolerance (judged for tolerances up to 1e-8)',
               'sources are scaled to unit sum of squares (as the stored results are)']


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def functions(c):
    """(name, library object counting its calls, g, g')"""
    r = c.int(0, 2)
    if r == 0:
        alpha = c.pick([1.0, 1.0, 1.5, 2.0, 0.7])

        def g(u):
            return np.tanh(alpha * u)

        def d(u):
            return alpha * (1 - np.tanh(alpha * u) ** 2)
        f = LogCosH() if alpha == 1.0 and c.chance(0.5) else LogCosH(alpha)
        name = f'LogCosH({alpha})'
    elif r == 1:
        f, name = Cube(), 'Cube'

        def g(u):
            return u ** 3

        def d(u):
            return 3 * u ** 2
    else:
        f, name = Exponential(), 'Exponential'

        def g(u):
            return u * np.exp(-u ** 2 / 2)

        def d(u):
            return (1 - u ** 2) * np.exp(-u ** 2 / 2)
    return name, f, g, d


def watch(c, f, g, d, what):
    """Counts the evaluations of the contrast and judges each as it happens; returns the list of batch shapes seen."""
    seen = []
    orig = f.apply

    def apply(x):
        u = x.data.copy()
        r = orig(x)
        seen.append(u.shape)
        if len(seen) <= 5 or len(seen) % 50 == 0:
            judge(c, u, r, g, d, what)
            c.ev('contrast evaluation observed')
        return r
    f.apply = apply
    return seen


def judge(c, u, r, g, d, what):
    c.ok(isinstance(r, tuple) and len(r) == 2, f'{what}: contrast returned {r!r:.80}')
    m = np.abs(u).max() if u.size else 1.0
    c.close(r[0], g(u), f'{what}: non-linearity', 1e-11, max(np.abs(g(u)).max(), 1e-300))
    c.close(r[1], d(u).mean(1, keepdims=True), f'{what}: mean derivative', 1e-11, max(1.0, 3 * m * m))


def contrast(c):
    n, p = c.int(1, 8), gen.rows(c, 1, 30, huge=4000)
    a = gen.values(c, n, p, c.pick(['normal', 'ints', 'offset', 'constant', 'uniform']))
    a = np.clip(a, -1e3, 1e3)
    if c.chance(0.2):
        a[c.int(0, n - 1)] = 0
    name, f, g, d = functions(c)
    m = gen.mat(c, a)
    for _ in range(2):  # the second application must not differ
        judge(c, a, c.call(name, f.apply, m), g, d, name)
    c.same(m, a, f'{name}: argument')
    c.sig(name, a)
    c.ev('contrast ' + name)


def mixture(c, n, p):
    s = np.column_stack([c.pick([c.rng.uniform(-1, 1, n), np.sign(c.rng.normal(size=n)) * c.rng.uniform(0.5, 1.5, n),
                                 c.rng.exponential(1.0, n), c.rng.laplace(size=n), c.rng.normal(size=n)])
                         for _ in range(p)])
    u, _, v = np.linalg.svd(c.rng.normal(size=(p, p)))
    cond = c.pick([3.0, 30.0, 1000.0])
    mix = (u * np.exp(c.rng.uniform(-np.log(cond), 0, p))) @ v
    return (s @ mix + c.pick([0.0, 2.0]) * c.rng.normal(size=p)) * c.pick([1.0, 1.0, 0.01, 100.0])


def unit(w):
    return w / np.linalg.norm(w)


def decorrelated(W):
    u, _, v = np.linalg.svd(W)
    return u @ v


def moved(W1, W):
    return float(np.abs(1 - np.abs(np.sum(W1 * W, 1))).max())


def step_deflation(W, Z, g, d):
    out = np.zeros_like(W)
    for j in range(len(W)):
        u = W[j] @ Z
        w = (Z * g(u)).mean(1) - d(u).mean() * W[j]
        w -= W[:j].T @ (W[:j] @ w)
        out[j] = unit(w)
    return out


def step_parallel(W, Z, g, d, finding=False):
    u = (W.T if finding else W) @ Z
    return decorrelated(g(u) @ Z.T / Z.shape[1] - d(u).mean(1)[:, None] * W)


def whitened(c):
    p = c.int(1, 7)
    n = c.int(p + 2, 12) if c.chance(0.25) else gen.rows(c, p + 8, 60, huge=2000)
    if c.chance(0.12):  # more features than samples
        p = c.int(4, 9)
        n = c.int(3, p)
    x = mixture(c, n, p)
    X = x - x.mean(0)
    s = np.linalg.svd(X, compute_uv=False)
    most = min(n, p)
    default = c.chance(0.15)
    asked = 5 if default else c.pick([1, 2, 3, most, most + 1, 40])
    k = min(asked, most)
    if not s[k - 1] > 1e-6 * s[0]:
        raise Skip()
    name, f, g, d = functions(c)
    scheme = c.pick([Algorithm.DEFLATION, Algorithm.PARALLEL])
    o = FastICA()
    if default and c.chance(0.5):
        name, scheme = 'LogCosH', Algorithm.DEFLATION
        f, g, d = o.fun, np.tanh, lambda u: 1 - np.tanh(u) ** 2
        c.ok(isinstance(f, LogCosH), 'the default contrast is not LogCosH')
    else:
        o.fun = f
        o.algorithm = scheme
    if not default:
        o.num_components = asked
    tol, limit = 1e-4, 500
    if c.chance(0.7):
        tol = o.tol = c.pick([1e-2, 1e-8, 1e-9, 1e-10, 1e-12])
    if c.chance(0.2):
        limit = o.max_iter = c.pick([1, 2, 3, 10, 2000])
    what = f'FastICA({name}, {scheme.name}, {asked} components, tol {tol}, max_iter {limit}) of {x.shape}'
    if c.chance(0.2):  # an object that was used before
        o.transform(gen.mat(c, mixture(c, 20, c.int(1, 6))))
    seen = watch(c, f, g, d, what)
    S = c.shape(c.call(what, o.transform, gen.mat(c, x)), n, k, f'{what}: sources')
    C = c.shape(o.components, k, p, f'{what}: components')
    M = c.shape(o.mixing, p, k, f'{what}: mixing')
    c.close(o.sources, S, f'{what}: exposed sources', 0)
    c.close(S.T @ S, np.eye(k), f'{what}: sources are not white', 1e-6, 1.0)
    c.close(S.mean(0)[None, :] * n, np.zeros((1, k)), f'{what}: sources are not centred', 1e-6, np.sqrt(n))
    eps = 1e-13 * (s[0] + np.abs(x).max()) / s[k - 1] + 1e-11
    c.close(S, X @ C.T, f'{what}: sources are not the components applied to the centred data', eps * 10,
            np.abs(C).max() * np.abs(X).max() * p)
    c.close(M, np.linalg.pinv(C), f'{what}: mixing is not the inverse of the components', 1e-7)
    c.close(C @ M, np.eye(k), f'{what}: components by mixing', 1e-7, 1.0)
    R = arr(c.call(f'{what}: reconstruction', o.reconstruct))
    scale = np.abs(x).max()
    c.close(R, x.mean(0) + X @ (np.linalg.pinv(C) @ C).T, f'{what}: reconstruction is not the projection of the data', 1e-7, scale)
    v = np.linalg.svd(X, full_matrices=False)[2][:k]
    if k == p or k >= n - 1:
        c.close(R, x, f'{what}: reconstruction of all components', 1e-7, scale)
        c.ev('full reconstruction')
    elif s[k - 1] - s[k] > 1e-4 * s[0]:
        c.close(R, x.mean(0) + X @ v.T @ v, f'{what}: reconstruction is not that of the dominant subspace', 1e-7, scale)
        c.ev('partial reconstruction')
    # the rotation within the whitened data
    u, sv, vt = np.linalg.svd(X.T, full_matrices=False)
    Z = (u[:, :k] / sv[:k]).T @ X.T * np.sqrt(n)
    W = (S * np.sqrt(n)).T @ Z.T / n
    c.close(W @ W.T, np.eye(k), f'{what}: not a rotation of the whitened data', 1e-5, 1.0)
    stationary(c, W, Z, g, d, scheme, seen, limit, tol, what)
    c.sig(name, scheme.name, asked, tol, limit, x)
    c.sample({'configuration': what, 'evaluations': len(seen)})


def stationary(c, W, Z, g, d, scheme, seen, limit, tol, what):
    if len(seen) >= limit:
        c.ev('not converged: not judged')
        return
    if not seen:  # evaluated otherwise; the number of steps is unknown
        c.ev('steps not observed: not judged')
        return
    if tol > 1e-7:
        c.ev('coarse tolerance: not judged')
        return
    k = len(W)
    lim = max(1000 * tol, 1e-9)
    c.checks += 1
    if scheme is Algorithm.DEFLATION:
        m = moved(step_deflation(W, Z, g, d), W)
    else:
        m = moved(step_parallel(W, Z, g, d), W)
        if m > lim and k > 1 and moved(step_parallel(W, Z, g, d, True), W) <= lim:
            c.known('KF11', what)
            c.ev('parallel: fixed point of the listed finding')
            return
    if m > lim:
        c.fail(f'{what}: converged after {len(seen)} evaluations, but another step turns a component by {m}')
    c.ev(f'{scheme.name.lower()}: stationary')


def unwhitened(c):
    p = c.int(1, 6)
    n = c.int(p + 1, 12) if c.chance(0.25) else gen.rows(c, p + 8, 60, huge=2000)
    x = mixture(c, n, p)
    white = c.chance(0.7)
    if white:
        x = np.linalg.qr(x - x.mean(0))[0] * np.sqrt(n)
    else:  # near enough to white for the contrast to have a slope
        if np.linalg.cond(x - x.mean(0)) > 10:
            raise Skip()
        x = (x - x.mean(0)) / x.std() + c.pick([0.0, 0.1])
    name, f, g, d = functions(c)
    scheme = c.pick([Algorithm.DEFLATION, Algorithm.PARALLEL])
    o = FastICA()
    o.whiten = False
    o.fun = f
    o.algorithm = scheme
    o.num_components = c.pick([1, 2, 5, 30])
    limit = 500
    tol = o.tol = c.pick([1e-4, 1e-8, 1e-10])
    what = f'FastICA({name}, {scheme.name}, tol {tol}, not whitening) of {x.shape}'
    seen = watch(c, f, g, d, what)
    S = c.shape(c.call(what, o.transform, gen.mat(c, x)), n, p, f'{what}: sources')
    C = c.shape(o.components, p, p, f'{what}: components')
    M = c.shape(o.mixing, p, p, f'{what}: mixing')
    scale = np.abs(x).max()
    c.close(C @ C.T, np.eye(p), f'{what}: components are not a rotation', 1e-5, 1.0)
    c.close(S, x @ C.T, f'{what}: sources are not the components applied to the data', 1e-10, scale * p)
    c.close(M, np.linalg.inv(C), f'{what}: mixing is not the inverse of the components', 1e-7, 1.0)
    c.close(c.call(f'{what}: reconstruction', o.reconstruct), x, f'{what}: reconstruction', 1e-7, scale)
    if white:
        stationary(c, C, x.T, g, d, scheme, seen, limit, tol, what)
    c.sig('unwhitened', name, scheme.name, tol, x)
    c.ev('white data' if white else 'other data')


def separation(c):
    """Independent sources with a marked shape are found again, up to order, sign and scale."""
    k = c.int(1, 4)
    n = 500
    s = np.column_stack([c.pick([c.rng.uniform(-1, 1, n), np.sign(c.rng.normal(size=n)) * c.rng.uniform(0.9, 1.1, n)])
                         for _ in range(k)])
    s = s - s.mean(0)
    mix = gen.well_conditioned(c, k + 2, k, 5.0)[:k]
    if np.linalg.cond(mix) > 50:
        raise Skip()
    x = s @ mix + c.uni(-3, 3)
    o = FastICA()
    name, f, g, d = functions(c)
    o.fun = f
    o.num_components = k
    o.tol = 1e-8
    S = arr(c.call('separation', o.transform, gen.mat(c, x)))
    a = np.abs(np.corrcoef(S.T, s.T)[:k, k:]) if k > 1 else np.abs(np.corrcoef(S[:, 0], s[:, 0])[:1, 1:])
    c.ok(bool(np.all(a.max(0) > 0.85)) and len(set(a.argmax(0))) == k,
         f'{name} DEFLATION: {k} sources of {n} samples were not separated: correlations {a.tolist()}')
    c.sig('separation', name, x)
    c.ev('sources separated')


def untrained(c):
    o = FastICA()
    c.refused(o.reconstruct, 'reconstruction without data')
    o.transform(gen.mat(c, mixture(c, 15, 3)))
    c.call('reconstruction', o.reconstruct)
    o.reset()
    c.refused(o.reconstruct, 'reconstruction after reset')
    c.sig('untrained', c.index)


SCENARIOS = [('contrast', contrast, 500, 8000), ('whitened', whitened, 900, 20000), ('unwhitened', unwhitened, 400, 8000),
             ('separation', separation, 60, 1000), ('untrained', untrained, 20, 60)]
