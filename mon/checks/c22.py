"""C22: principal components against the definition: orthonormal directions, uncorrelated scores, leading variances."""
import numpy as np

from wai.ma.algorithm import PCA

from .. import gen, instr
from ..common import Skip, arr

RULE = ('data of all shapes (fewer rows than columns, constant and repeated columns anywhere, columns of different '
        'scales), variance shares, caps, centred and standardised; distinct: different (parameters, data)')
ASSUMPTIONS = ['directions are compared through the relations that define them (orthonormality, covariance of the scores), '
               'so ties and signs are free', 'shares of variance within 1e-9 of the requested one are not judged',
               'data without any varying column are outside the domain']


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def data(c, tall=False):
    r = c.rng.random()
    n = c.int(41, 400) if tall else c.int(2, 7) if r < 0.35 else gen.rows(c, 8, 40, huge=2500)
    p = c.int(1, 4) if c.chance(0.3) else gen.rows(c, 2, 14, 60)
    kind = c.int(0, 6)
    if kind == 0:
        a = gen.well_conditioned(c, n, p)
    elif kind == 1:  # low rank
        k = c.int(1, p)
        a = c.rng.normal(size=(n, k)) @ c.rng.normal(size=(k, p)) + 0.01 * c.rng.normal(size=(n, p))
    elif kind == 2:  # scales
        a = c.rng.normal(size=(n, p)) * 10.0 ** c.rng.integers(-3, 4, size=p) + c.rng.normal(size=p)
    elif kind == 3:
        a = c.rng.integers(-3, 4, size=(n, p)).astype(float)
    elif kind == 4:  # repeated columns
        a = c.rng.normal(size=(n, p))
        if p > 1:
            a[:, c.int(0, p - 1)] = a[:, c.int(0, p - 1)] * c.pick([1.0, -2.0])
    elif kind == 5:  # offsets
        a = c.rng.normal(size=(n, p)) + c.pick([100.0, -1e4])
    else:
        a = c.rng.normal(size=(n, p)) ** 3
    if c.chance(0.12):  # extreme units
        a = a * (10.0 ** c.rng.integers(-20, 12, size=p) if c.chance(0.5) else 10.0 ** c.int(-20, 12))
        c.ev('extreme units')
    if c.chance(0.45):
        for _ in range(c.int(1, 3)):
            a[:, c.int(0, p - 1)] = c.pick([0.0, 1.0, -3.7, 0.1, 1e5])
    if c.chance(0.6 if tall else 0.15):  # constant but for one cell
        j = c.int(0, p - 1)
        v = c.pick([0.0, 1.0, -3.5])
        a[:, j] = v
        a[c.pick([0, n - 1, c.int(0, n - 1)]), j] = v + c.pick([1.0, -2.0])
        c.ev('column constant but for one cell')
    return a


def settings(c):
    kw = {}
    if c.chance(0.8):
        kw['variance'] = c.pick([0.95, 0.5, 0.8, 0.999, 0.05, 0.9999999, c.uni(0.05, 0.99)])
    if c.chance(0.5):
        kw['max_columns'] = c.pick([-1, 1, 2, 3, 5, 20])
    if c.chance(0.6):
        kw['center'] = c.chance(0.5)
    return kw


def judge(c, o, kw, a, what):
    """All relations for one call of transform."""
    variance, cap, center = kw.get('variance', 0.95), kw.get('max_columns', -1), kw.get('center', False)
    n, p = a.shape
    keep = [j for j in range(p) if np.ptp(a[:, j]) > 0]
    if not keep:
        raise Skip()
    A = a[:, keep]
    Z = A - A.mean(0)
    s = A.std(0, ddof=1)
    if np.any(s < 1e-9 * np.abs(A).max(0)):
        raise Skip()
    if not center:
        Z = Z / s
    C = Z.T @ Z / (n - 1)
    vals = np.sort(np.linalg.eigvalsh(C))[::-1]
    vals = np.maximum(vals, 0)
    share = np.cumsum(vals) / vals.sum()
    near = np.abs(share - variance) < 1e-9
    if near.any():
        raise Skip()
    k = int(np.argmax(share >= variance)) + 1
    if cap > 0:
        k = min(k, cap)
    got = c.call(what, o.transform, gen.mat(c, a))
    T = c.shape(got, n, k, f'{what}: scores')
    c.same(o.scores, T, f'{what}: offered scores')
    L = c.shape(o.loadings, p, k + 1, f'{what}: loadings')
    c.same(L[:, [k]], np.arange(1, p + 1.0).reshape(-1, 1), f'{what}: column numbers')
    dropped = [j for j in range(p) if j not in keep]
    if dropped:
        c.same(L[dropped, :k], np.zeros((len(dropped), k)), f'{what}: weights of constant columns')
        c.ev('constant columns', len(dropped))
    W = L[keep, :k]
    c.close(W.T @ W, np.eye(k), f'{what}: directions are not orthonormal', 1e-9, 1.0)
    c.close(Z @ W, T, f'{what}: scores are not the projections', 1e-9, max(np.abs(Z).max(), 1e-300) * np.sqrt(len(keep)))
    c.close(C @ W, W * vals[:k], f'{what}: directions are not eigenvectors of the covariance, in order', 1e-8, vals[0])
    c.close(T.T @ T / (n - 1), np.diag(vals[:k]), f'{what}: variances of the scores', 1e-8, vals[0])
    c.close(T.mean(0)[None, :], np.zeros((1, k)), f'{what}: scores are not centred', 1e-9, max(np.abs(Z).max(), np.abs(A).max() if center else 1) )
    c.ok(o.is_initialised(), f'{what}: not trained after transforming')
    co = o.get_coefficients()
    c.ok(len(co) == k and all(len(v) == len(keep) for v in co), f'{what}: coefficients of {len(co)} components')
    c.same(np.array(co, dtype=float).T, W, f'{what}: coefficients')
    c.ev('capped' if cap > 0 and cap == k else 'by share')
    if n <= len(keep):
        c.ev('fewer rows than columns')
    if p > 1 and len(vals) > 1 and np.any(np.abs(np.diff(vals)) < 1e-9 * vals[0]):
        c.ev('equal variances')


def single(c):
    a = data(c)
    kw = settings(c)
    o = PCA()
    for k in c.rng.permutation(list(kw)):
        setattr(o, str(k), kw[str(k)])
    judge(c, o, kw, a, f'PCA {kw} of {a.shape}')
    c.sig('single', sorted(kw.items()), a)
    c.sample({'settings': kw, 'shape': a.shape})


def tall(c):
    """Many rows."""
    a = data(c, True)
    kw = settings(c)
    o = PCA()
    for k, v in kw.items():
        setattr(o, k, v)
    judge(c, o, kw, a, f'PCA {kw} of {a.shape}')
    c.sig('tall', sorted(kw.items()), a)


def repeated(c):
    """Every call learns anew, with the settings of that moment; earlier results stay as they are."""
    o = PCA()
    kw = {}
    results = []
    for i in range(c.int(2, 4)):
        new = settings(c)
        for k, v in new.items():
            setattr(o, k, v)
        kw.update(new)
        a = data(c)
        try:
            judge(c, o, kw, a, f'PCA use {i} {kw} of {a.shape}')
        except Skip:
            continue
        results.append((o.scores, o.loadings, o.scores.data.copy(), o.loadings.data.copy()))
        c.sig('repeated', i, a)
    for s, l, s0, l0 in results:
        c.same(s, s0, 'earlier scores changed')
        c.same(l, l0, 'earlier loadings changed')
    c.ev('uses of one object', len(results))


def invariance(c):
    """Shifting columns changes nothing; so does rescaling them when standardising; reordering them permutes the weights."""
    n, p = c.int(6, 25), c.int(2, 8)
    a = gen.well_conditioned(c, n, p, 100.0)
    center = c.chance(0.5)
    Z = a - a.mean(0)
    if not center:
        Z = Z / a.std(0, ddof=1)
    vals = np.linalg.eigvalsh(Z.T @ Z)[::-1]
    if np.any(np.diff(-vals) < 0.02 * vals[0]):
        raise Skip()
    kw = dict(center=center, variance=c.pick([0.6, 0.9, 0.99]))
    share = np.cumsum(vals) / vals.sum()
    if np.abs(share - kw['variance']).min() < 1e-6:
        raise Skip()

    def run(x):
        o = PCA()
        for k, v in kw.items():
            setattr(o, k, v)
        return arr(o.transform(gen.mat(c, x))), arr(o.loadings)
    t, w = run(a)
    k = t.shape[1]
    s = c.perm(p)
    r = c.perm(n)
    f = np.ones(p) if center else c.rng.uniform(0.1, 9, size=p)
    shift = c.rng.normal(size=p) * 10
    t2, w2 = run((a * f + shift)[r][:, s])
    c.ok(t2.shape == t.shape, f'PCA {kw}: {k} components became {t2.shape[1]} on equivalent data')
    sg = np.sign((t2 * t[r]).sum(0))
    c.close(t2 * sg, t[r], f'PCA {kw}: scores of equivalent data', 1e-6)
    c.close(w2[:, :k] * sg, w[s][:, :k], f'PCA {kw}: weights of equivalent data', 1e-6, 1.0)
    c.sig('invariance', a)
    c.ev('equivalent data')


SCENARIOS = [('single', single, 2400, 40000), ('tall', tall, 200, 4000), ('repeated', repeated, 400, 6000), ('invariance', invariance, 300, 5000)]
