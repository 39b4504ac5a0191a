"""C23: CCA filter projections against the relations that define canonical directions."""
import numpy as np

from wai.ma.algorithm import CCAFilter

from .. import gen, instr
from ..common import Skip, arr

RULE = ('pairs of blocks of all shapes (more responses than predictors, fewer rows than columns, several responses), all '
        'dimensions and regularisation strengths; distinct: different (parameters, data)')
ASSUMPTIONS = ['directions are judged by the relations that define them, so ties and signs (of a pair) are free',
               'regularised covariances with a condition number above 1e8 are outside the domain; tolerance 1e-14 times '
               'that number plus 1e-9']


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def blocks(c):
    p, q = c.int(1, 9), c.int(1, 6)
    if c.chance(0.3):
        q = p + c.int(0, 3)
    n = c.int(2, 9) if c.chance(0.25) else gen.rows(c, max(p, q) + 2, 40, huge=2500)
    z = c.rng.normal(size=(n, 3))
    x = z @ c.rng.normal(size=(3, p)) * c.pick([0.0, 0.5, 2.0]) + c.rng.normal(size=(n, p))
    y = z @ c.rng.normal(size=(3, q)) * c.pick([0.5, 2.0]) + c.rng.normal(size=(n, q)) * c.pick([0.1, 1.0])
    x = x * c.pick([1.0, 0.1, 30.0]) + c.rng.normal(size=p) * c.pick([0, 10.0])
    y = y * c.pick([1.0, 0.1, 30.0]) + c.rng.normal(size=q) * c.pick([0, 10.0])
    if c.chance(0.1):
        x[:, c.int(0, p - 1)] = 2.5
    return x, y


def judge(c, o, x, y, k, lx, ly, what):
    p, q = x.shape[1], y.shape[1]
    X, Y = x - x.mean(0), y - y.mean(0)
    Cx, Cy, Cxy = X.T @ X + lx * np.eye(p), Y.T @ Y + ly * np.eye(q), X.T @ Y
    cond = max(np.linalg.cond(Cx), np.linalg.cond(Cy))
    if not cond < 1e8 or min(np.linalg.eigvalsh(Cx)[0], np.linalg.eigvalsh(Cy)[0]) <= 0:
        raise Skip()
    tol = 1e-9 + 1e-14 * cond
    msg = c.call(f'training of {what}', o.initialize, gen.mat(c, x), gen.mat(c, y))
    c.ok(msg is None, f'{what}: reported {msg!r}')
    c.ok(o.is_initialised(), f'{what}: not trained')
    A = c.shape(o.proj_X, p, k, f'{what}: proj_X')
    B = c.shape(o.proj_Y, q, k, f'{what}: proj_Y')
    c.close(A.T @ Cx @ A, np.eye(k), f'{what}: predictor directions do not have unit uncorrelated variance', tol, 1.0)
    c.close(B.T @ Cy @ B, np.eye(k), f'{what}: response directions do not have unit uncorrelated variance', tol, 1.0)

    def root(M):
        v, w = np.linalg.eigh(M)
        return w / np.sqrt(v) @ w.T
    s = np.linalg.svd(root(Cx) @ Cxy @ root(Cy), compute_uv=False)[:k]
    R = A.T @ Cxy @ B
    c.close(R, np.diag(s), f'{what}: cross-correlations', tol * 10, 1.0)
    if min(lx, ly) >= 0:
        c.ok(bool(np.all(np.diag(R) <= 1 + tol * 10)), f'{what}: correlations above 1')
    # transforming uses the training means of the matching block
    for rows, block, m, P, f, lab in ((x, x, x.mean(0), A, o.transform, 'predictors'),
                                      (y, y, y.mean(0), B, o.transform_response, 'responses')):
        nq = c.int(1, 4)
        fresh = c.rng.normal(size=(nq, block.shape[1])) * 3 + 1
        for Z, l in ((rows, 'training'), (fresh, 'new')):
            got = c.call(f'{what}: transforming {l} {lab}', f, gen.mat(c, Z))
            c.close(got, (Z - m) @ P, f'{what}: transformed {l} {lab}', 1e-9,
                    np.abs(Z - m).max() * np.abs(P).max() * P.shape[0] + 1e-300)
    T, U = arr(o.transform(gen.mat(c, x))), arr(o.transform_response(gen.mat(c, y)))
    c.close(T.T @ U, np.diag(s), f'{what}: cross-products of the transformed blocks', tol * 10, 1.0)
    if lx == 0:
        c.close(T.T @ T, np.eye(k), f'{what}: transformed predictors', tol, 1.0)
        c.ev('no regularisation')


def strengths(c):
    return c.pick([1e-2, 0.5, 10.0, 0.0, 1e-4, 1000.0]), c.pick([1e-2, 0.5, 10.0, 0.0, 1e-4])


def single(c):
    x, y = blocks(c)
    p, q = x.shape[1], y.shape[1]
    lx, ly = strengths(c)
    k = c.int(1, min(p, q))
    o = CCAFilter()
    for name, v in (('kcca', k), ('lambda_X', lx), ('lambda_Y', ly)):
        if getattr(o, name) != v or c.chance(0.5):
            setattr(o, name, v)
    judge(c, o, x, y, k, lx, ly, f'CCAFilter({k}, {lx}, {ly}) of {x.shape} and {y.shape}')
    c.sig('single', k, lx, ly, x, y)
    c.ev('more responses than predictors' if q > p else 'several responses' if q > 1 else 'one response')
    if len(x) <= max(p, q):
        c.ev('fewer rows than columns')
    c.sample({'kcca': k, 'lambda': [lx, ly], 'shapes': [x.shape, y.shape]})


def refused(c):
    x, y = blocks(c)
    m = min(x.shape[1], y.shape[1])
    o = CCAFilter()
    if c.chance(0.5):  # trained before
        o.initialize(gen.mat(c, x), gen.mat(c, y))
    o.kcca = m + c.int(1, 4)
    what = f'CCAFilter({o.kcca}) of {x.shape} and {y.shape}'
    try:
        msg = o.initialize(gen.mat(c, x), gen.mat(c, y))
    except Exception as e:
        msg = str(e) or 'refused'
    c.ok(msg is not None, f'{what}: dimension above what the blocks allow was accepted')
    c.ok(not o.is_initialised(), f'{what}: trained after refusing')
    c.refused(lambda: o.transform(gen.mat(c, x)), f'{what}: transform after refusing')
    c.refused(lambda: o.transform_response(gen.mat(c, y)), f'{what}: transform_response after refusing')
    # the same object can still be used
    o.kcca = m
    judge(c, o, x, y, m, 1e-2, 1e-2, f'CCAFilter({m}) of {x.shape} and {y.shape} after a refusal')
    c.sig('refused', o.kcca, x, y)
    c.ev('refusal')


def repeated(c):
    """Training again forgets the first blocks."""
    o = CCAFilter()
    lx, ly = strengths(c)
    o.lambda_X, o.lambda_Y = lx, ly
    for i in range(c.int(2, 3)):
        x, y = blocks(c)
        k = c.int(1, min(x.shape[1], y.shape[1]))
        o.kcca = k
        try:
            judge(c, o, x, y, k, lx, ly, f'CCAFilter({k}, {lx}, {ly}) training {i}')
        except Skip:
            continue
        c.sig('repeated', i, x, y)
        c.ev('training of one object')


def swapped(c):
    """The roles of the blocks are symmetric."""
    x, y = blocks(c)
    k = min(x.shape[1], y.shape[1])
    a, b = CCAFilter(), CCAFilter()
    lx, ly = strengths(c)
    a.lambda_X, a.lambda_Y, b.lambda_X, b.lambda_Y = lx, ly, ly, lx
    a.kcca = b.kcca = k
    X, Y = x - x.mean(0), y - y.mean(0)
    if max(np.linalg.cond(X.T @ X + lx * np.eye(X.shape[1])), np.linalg.cond(Y.T @ Y + ly * np.eye(Y.shape[1]))) > 1e6:
        raise Skip()
    c.ok(a.initialize(gen.mat(c, x), gen.mat(c, y)) is None, 'training failed')
    c.ok(b.initialize(gen.mat(c, y), gen.mat(c, x)) is None, 'training failed')
    r = np.diag(arr(a.transform(gen.mat(c, x))).T @ arr(a.transform_response(gen.mat(c, y))))
    s = np.diag(arr(b.transform(gen.mat(c, y))).T @ arr(b.transform_response(gen.mat(c, x))))
    c.close(r[None, :], s[None, :], f'correlations of {x.shape} and {y.shape} with the blocks exchanged', 1e-7, 1.0)
    c.sig('swapped', x, y)
    c.ev('blocks exchanged')


SCENARIOS = [('single', single, 2400, 40000), ('refused', refused, 400, 5000), ('repeated', repeated, 400, 6000),
             ('swapped', swapped, 400, 5000)]
