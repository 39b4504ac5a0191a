"""C20: the matrices a trained PLS model exposes against the relations that define them, and against its answers."""
import numpy as np

from wai.ma.core import PreprocessingType

from .. import gen, instr, ref, zoo
from ..common import Skip, arr, is_close

RULE = ('every PLS model on data with more rows than columns and the reverse, all preprocessing types; relations between '
        'exposed matrices, training data, scores and predictions; distinct: different (model, parameters, data)')
ASSUMPTIONS = ['relations hold up to 1e-6 of the scale of the matrices involved',
               'domain-invariant models transform with the plain weights and kernel models with the dual weights: their '
               'scores are recovered from the transformed training data through the loadings',
               'components beyond the rank of the data are not judged']
KINDS = (PreprocessingType.NONE, PreprocessingType.CENTER, PreprocessingType.STANDARDIZE)
NAMES = {'PLS1': ['RegVector', 'P', 'W', 'b_hat'], 'VCPLS': ['RegVector', 'P', 'W', 'b_hat'],
         'SIMPLS': ['W', 'B', 'Q'], 'NIPALS': ['T', 'U', 'P', 'Q'], 'CCARegression': ['T', 'U', 'P', 'Q'],
         'KernelPLS': ['K', 'T', 'U', 'P', 'Q'], 'OPLS': ['P_orth', 'W_orth', 'T_orth'],
         'DIPLS': ['T', 'Ts', 'Tt', 'Wdi', 'P', 'Ps', 'Pt', 'bdi'], 'SparsePLS': ['W', 'B'],
         'PRM': ['B', 'Wr', 'Wx', 'W']}
LOADINGS = {'PLS1': 'P', 'VCPLS': 'P', 'SIMPLS': 'W', 'NIPALS': 'P', 'CCARegression': 'P', 'KernelPLS': 'T',
            'OPLS': 'P_orth', 'DIPLS': 'T', 'SparsePLS': 'W', 'PRM': None}
TOL = 1e-6


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


class Model:
    def __init__(self, c, s, d, o):
        self.c, self.s, self.d, self.o = c, s, d, o
        self.k = s.params['num_components']
        self.m = {n: arr(o.get_matrix(n), n) for n in NAMES[s.name]}
        prep = ref.prep_code(s.params)
        if s.name == 'DIPLS':
            rows = np.vstack([d['xs'], d['xt']] + ([d['xu']] if s.mode == 'semisupervised' else []))
            y = d['ys'] if s.mode == 'unsupervised' else np.vstack([d['ys'], d['yt']])
        else:
            rows, y = d['x'], d['y']
        self.px, self.py = ref.Prep(prep, rows), ref.Prep(prep, y)
        self.X, self.Y = self.px(rows), self.py(y)
        self.raw = rows
        self.what = f'{s} on {rows.shape}'

    def close(self, a, b, what, scale=None, tol=TOL):
        b = np.asarray(b)
        self.c.close(np.asarray(a), b, f'{self.what}: {what}', tol, scale)

    def dims(self, **kw):
        for n, e in kw.items():
            self.c.ok(self.m[n].shape == e, f'{self.what}: {n} is {self.m[n].shape}, expected {e}')

    def orthogonal(self, T, what, unit=False):
        G = T.T @ T
        d = np.sqrt(np.diag(G))
        self.c.ok(bool(np.all(d > 0)), f'{self.what}: {what}: zero vector')
        G = G / np.outer(d, d)
        self.c.ok(float(np.abs(G - np.eye(len(d))).max()) <= 1e-6, f'{self.what}: {what} are not mutually orthogonal: '
                                                                   f'{G.tolist()!r:.300}')
        if unit:
            self.unit(T, what)

    def unit(self, T, what):
        n = np.sqrt((T ** 2).sum(0))
        self.c.ok(float(np.abs(n - 1).max()) <= 1e-7, f'{self.what}: {what} have lengths {n}')

    def perpendicular(self, A, B, what, whole=None):
        """A'B = 0 relative to the lengths; whole: the data A is a part of."""
        s = np.sqrt(np.outer((A ** 2).sum(0), (B ** 2).sum(0)))
        w = A if whole is None else whole
        floor = 1e-9 * max(np.sqrt((w ** 2).sum() * (B ** 2).sum()), 1e-30)
        self.c.ok(bool(np.all(np.abs(A.T @ B) <= TOL * s + floor)), f'{self.what}: {what}')

    def predict(self, rows=None):
        rows = self.raw if rows is None else rows
        return arr(self.o.predict(gen.mat(self.c, rows)))

    def transform(self, rows=None):
        rows = self.raw if rows is None else rows
        return arr(self.o.transform(gen.mat(self.c, rows)))

    def predictions(self, standardised, what):
        """The predictions are these values in preprocessed units."""
        e = self.py.inverse(standardised)
        self.close(self.predict(), e, what, max(np.abs(e).max(), np.abs(self.py.inverse(self.Y)).max()))


def pls1(m):
    p, k, n = m.X.shape[1], m.k, len(m.X)
    W, P, b, r = m.m['W'], m.m['P'], m.m['b_hat'], m.m['RegVector']
    m.dims(W=(p, k), P=(p, k), b_hat=(k, 1), RegVector=(p, 1))
    M = P.T @ W
    if np.linalg.cond(M) > 1e5:
        raise Skip()
    T = m.transform()
    m.c.ok(T.shape == (n, k), f'{m.what}: scores are {T.shape}')
    m.unit(W, 'weights')
    if m.s.name == 'PLS1':
        m.orthogonal(W, 'weights')
    m.close(np.diag(M)[None, :], np.ones((1, k)), 'diagonal of P\'W')
    m.orthogonal(T, 'scores')
    m.close(m.X @ W @ np.linalg.inv(M), T, 'scores from rotated weights')
    tt = (T ** 2).sum(0)
    m.close(m.X.T @ T / tt, P, 'loadings')
    m.close((T.T @ m.Y) / tt[:, None], b, 'score coefficients')
    m.close(W @ np.linalg.inv(M) @ b, r, 'regression vector')
    m.predictions(T @ b, 'predictions from scores')
    m.predictions(m.X @ r, 'predictions from the regression vector')
    m.perpendicular(m.X - T @ P.T, T, 'predictor residuals are not orthogonal to the scores', m.X)
    m.perpendicular(m.Y - T @ b, T, 'response residuals are not orthogonal to the scores', m.Y)
    xq = m.raw[:2] * 1.3 + 0.1
    m.close(m.transform(xq), m.px(xq) @ W @ np.linalg.inv(M), 'scores of unseen rows')
    if m.s.name == 'PLS1':  # every weight vector is the covariance direction of what is left
        m.close(ref.unit(m.X.T @ m.Y), W[:, [0]], 'first weight vector')


def simpls(m):
    p, k, n = m.X.shape[1], m.k, len(m.X)
    W, B, Q = m.m['W'], m.m['B'], m.m['Q']
    m.dims(W=(p, k), B=(p, 1), Q=(1, k))
    m.close(W @ Q.T, B, 'regression coefficients')
    m.predictions(m.X @ B, 'predictions from the coefficients')
    T = m.transform()
    m.c.ok(T.shape == (n, k), f'{m.what}: scores are {T.shape}')
    m.close(m.X @ W, T, 'scores')
    if m.s.params.get('num_coefficients', 0) > 0:
        return
    m.orthogonal(T, 'scores', True)
    m.close(m.Y.T @ T, Q, 'response loadings')
    m.predictions(T @ Q.T, 'predictions from scores')
    m.perpendicular(m.Y - T @ Q.T, T, 'response residuals are not orthogonal to the scores', m.Y)
    m.perpendicular(m.X - T @ (T.T @ m.X), T, 'residuals', m.X)


def nipals(m):
    p, k, n, q = m.X.shape[1], m.k, len(m.X), m.Y.shape[1]
    T, U, P, Q = (m.m[x] for x in 'TUPQ')
    m.dims(T=(n, k), U=(n, k), P=(p, k), Q=(q, k))
    zx, zy = ref.Prep(2, m.X), ref.Prep(2, m.Y)
    E, F = zx(m.X), zy(m.Y)
    m.orthogonal(T, 'scores')
    tt = (T ** 2).sum(0)
    if tt.min() < 1e-8 * tt.max():
        raise Skip()
    m.close(E.T @ T / tt, P, 'loadings')
    m.close(m.transform(), T, 'transformed training data', np.abs(T).max())
    m.perpendicular(E - T @ P.T, T, 'predictor residuals are not orthogonal to the scores', E)
    m.predictions(zy.inverse(T @ Q.T), 'predictions from scores')
    canonical = m.s.name == 'CCARegression' or m.s.params['deflation_mode'].name == 'CANONICAL'
    left = F.copy()
    for j in range(k):
        u, t = U[:, [j]], T[:, [j]]
        if np.sqrt((left ** 2).sum()) < 1e-6 * np.sqrt((F ** 2).sum()):
            break
        w = np.linalg.lstsq(left, u, rcond=1e-9)[0]
        m.close(left @ w, u, f'response score {j} is not a combination of the responses', np.abs(u).max(), 1e-5)
        cca = m.s.name == 'CCARegression'
        sv = np.linalg.svd(left, compute_uv=False)
        if not cca or sv[-1] > 1e-4 * sv[0]:  # the weights of the responses belong to the predictor score
            v = np.linalg.pinv(left) @ t if cca else left.T @ t / (t ** 2).sum()
            if m.s.params.get('norm_Y_weights'):
                v = v / np.linalg.norm(v)
            m.close(left @ v / (v ** 2).sum(), u, f'response score {j}', np.abs(u).max(), 1e-6)
        d = u if canonical else t
        v = left.T @ d / (d ** 2).sum()
        m.close(Q[:, [j]], v, f'response loading {j}', np.abs(Q).max(), 1e-5)
        left = left - d @ v.T
    if canonical and k > 1:
        m.orthogonal(U, 'response scores')
    if not canonical:
        m.perpendicular(F - T @ Q.T, T, 'response residuals are not orthogonal to the scores', F)


def kernel(m):
    k, n, q = m.k, len(m.X), m.Y.shape[1]
    K, T, U, P, Q = (m.m[x] for x in 'KTUPQ')
    m.dims(K=(n, n), T=(n, k), U=(n, k), P=(n, k), Q=(q, k))
    X, F = m.X - m.X.mean(0), m.Y - m.Y.mean(0)
    K0 = arr(m.o.kernel.apply_matrix(gen.plain(X)))
    J = np.eye(n) - np.ones((n, n)) / n
    Kc = J @ K0 @ J
    scale = np.abs(Kc).max()
    m.orthogonal(T, 'scores', True)
    m.unit(U, 'dual weights')
    H = np.eye(n) - T @ T.T
    m.close(K, H @ Kc @ H, 'deflated kernel', scale)
    m.close(F.T @ T, Q, 'response loadings', np.abs(Q).max())
    D = Kc.copy()
    p_exp, p_after = [], []
    for j in range(k):
        t = T[:, [j]]
        m.close(ref.unit(D @ U[:, [j]]), t, f'score {j} from its dual weight', 1.0, 1e-2)
        p_exp.append(D.T @ t)
        h = np.eye(n) - t @ t.T
        D = h @ D @ h
        p_after.append(D.T @ t)
    if is_close(P, np.hstack(p_exp), TOL, scale):
        pass
    elif np.abs(P).max() <= 1e-9 * scale and np.abs(np.hstack(p_after)).max() <= 1e-9 * scale:
        m.c.known('KF13', m.what)
    else:
        m.c.fail(f'{m.what}: loadings P are {P.tolist()!r:.300}')
    # the answers for the training data
    G = T.T @ Kc @ U
    if np.linalg.cond(G) > 1e6:
        raise Skip()
    B = np.linalg.inv(G) @ Q.T
    tr, pr = m.transform(), m.predict()
    right, wrong = Kc @ U, (K0 - np.ones((n, n)) / n @ Kc) @ J @ U
    if not is_close(tr, right, TOL, np.abs(right).max()) and is_close(tr, wrong, TOL, np.abs(wrong).max()):
        m.c.known('KF5', m.what)
        right = wrong
    m.close(tr, right, 'transformed training data', np.abs(right).max())
    e = m.py.inverse(right @ B + m.Y.mean(0))
    m.close(pr, e, 'predictions from dual weights', max(np.abs(e).max(), 1e-9), 1e-5)
    m.perpendicular(F - T @ Q.T, T, 'response residuals are not orthogonal to the scores', F)


def opls(m):
    p, k, n = m.X.shape[1], m.k, len(m.X)
    P, W, T = m.m['P_orth'], m.m['W_orth'], m.m['T_orth']
    m.dims(P_orth=(p, k), W_orth=(p, k), T_orth=(n, k))
    ref.Opls(m.X, m.Y, k)  # skips degenerate data
    m.orthogonal(W, 'orthogonal weights', True)
    m.orthogonal(T, 'orthogonal scores')
    m.perpendicular(T, m.Y, 'orthogonal scores are not orthogonal to the response')
    m.perpendicular(W, m.X.T @ m.Y, 'orthogonal weights are not orthogonal to the predictive direction')
    m.close(m.X.T @ T / (T ** 2).sum(0), P, 'orthogonal loadings')
    clean = m.X - T @ P.T
    got = m.transform()
    sc = np.abs(m.X).max()
    if not is_close(got, clean, TOL, sc):
        if k > 1 and is_close(got, m.X - m.X @ W @ P.T, TOL, sc):
            m.c.known('KF12', m.what)
            clean = got
        else:
            m.c.fail(f'{m.what}: transforming does not remove the orthogonal components')
    base = m.o.base_PLS
    m.predictions(arr(base.predict(gen.mat(m.c, got))), 'predictions of the base model on cleaned data')
    # the base model learned from the cleaned data
    b = m.s.build().base_PLS
    b.initialize(gen.mat(m.c, clean), gen.mat(m.c, m.Y))
    m.predictions(arr(b.predict(gen.mat(m.c, clean))), 'predictions of a base model trained on cleaned data')


def dipls(m):
    s, d, k, p = m.s, m.d, m.k, m.X.shape[1]
    ns, nt = len(d['xs']), len(d['xt'])
    T, W, P, b = m.m['T'], m.m['Wdi'], m.m['P'], m.m['bdi']
    X = {'unsupervised': m.X[:ns], 'supervised': m.X, 'semisupervised': m.X[:ns + nt]}[s.mode]
    xt = m.X[ns:]
    m.dims(T=(len(X), k), Ts=(ns, k), Tt=(len(xt), k), Wdi=(p, k), P=(p, k), Ps=(p, k), Pt=(p, k), bdi=(p, 1))
    m.unit(W, 'weights')
    y = m.Y - m.Y.mean()
    C = X - X.mean(0)
    for block, t, l, lab in ((C, T, P, ''), (m.X[:ns] - m.X[:ns].mean(0), m.m['Ts'], m.m['Ps'], 'source '),
                             (xt - xt.mean(0), m.m['Tt'], m.m['Pt'], 'target ')):
        M = l.T @ W
        if np.linalg.cond(M) > 1e4:
            raise Skip()
        m.orthogonal(t, lab + 'scores')
        tt = (t ** 2).sum(0)
        if tt.min() < 1e-8 * tt.max():
            raise Skip()
        m.close(block.T @ t / tt, l, lab + 'loadings')
        m.close(block @ W @ np.linalg.inv(M), t, lab + 'scores from rotated weights')
        m.perpendicular(block - t @ l.T, t, lab + 'residuals', block)
    M = P.T @ W
    coef = T.T @ y / (T ** 2).sum(0)[:, None]
    m.close(W @ np.linalg.inv(M) @ coef, b, 'regression vector', np.abs(b).max(), 1e-5)
    m.close(m.transform(m.raw[:3]), (m.X[:3] - X.mean(0)) @ W, 'transformed rows')
    rows = m.raw[:4]
    mean = xt.mean(0) if s.mode == 'unsupervised' else X.mean(0)
    e = m.py.inverse((m.px(rows) - mean) @ b + m.Y.mean())
    m.close(m.predict(rows), e, 'predictions from the regression vector', max(np.abs(e).max(), 1e-9))


def sparse(m):
    p, k = m.X.shape[1], m.k
    W, B = m.m['W'], m.m['B']
    m.dims(W=(p, k), B=(p, 1))
    zx, zy = ref.Prep(2, m.X), ref.Prep(2, m.Y)
    m.predictions(zy.inverse(zx(m.X) @ B), 'predictions from the coefficients')
    r = ref.Spls(m.X, m.Y, k, m.s.params['lambda_'])
    unit = r.W / np.sqrt((r.W ** 2).sum(0))
    if not is_close(W, unit, 1e-5, np.abs(unit).max()):
        if is_close(W, r.W, 1e-5, np.abs(r.W).max()):
            m.c.known('KF14', m.what)
        else:
            m.c.fail(f'{m.what}: direction vectors {W.tolist()!r:.300}')
    for j in range(p):
        if j not in r.A:
            m.c.ok(B[j, 0] == 0, f'{m.what}: coefficient of the unselected feature {j} is {B[j, 0]}')


def prm(m):
    p, n, k = m.X.shape[1], len(m.X), m.k
    B, Wr, Wx, W = (m.m[x] for x in ('B', 'Wr', 'Wx', 'W'))
    m.dims(B=(p, 1), Wr=(n, 1), Wx=(n, 1), W=(n, 1))
    m.close(Wr * Wx, W, 'combined weights')
    for v in (Wr, Wx):
        m.c.ok(bool(np.all((v > 0) & (v <= 1 + 1e-12))), f'{m.what}: weights outside (0, 1]')
    m.predictions(m.X @ B, 'predictions from the coefficients')
    T = m.transform()
    m.c.ok(T.shape == (n, k), f'{m.what}: scores are {T.shape}')
    y = m.X @ B
    g = np.linalg.lstsq(T, y, rcond=1e-10)[0]
    m.close(T @ g, y, 'predictions are not a combination of the scores', np.abs(y).max(), 1e-5)
    m.c.ok(m.o.get_loadings() is None, f'{m.what}: offers loadings')


JUDGES = dict(PLS1=pls1, VCPLS=pls1, SIMPLS=simpls, NIPALS=nipals, CCARegression=nipals, KernelPLS=kernel, OPLS=opls,
              DIPLS=dipls, SparsePLS=sparse, PRM=prm)
ORDER = tuple(JUDGES) + ('PLS1', 'NIPALS')


def relations(c):
    name = ORDER[c.index % len(ORDER)]
    k = c.int(1, 5) if name in ('PLS1', 'SIMPLS', 'NIPALS') else None
    s = zoo.spec(c, name, k=k, prep=True)
    n = p = None
    if name in ('PLS1', 'SIMPLS', 'NIPALS', 'OPLS', 'PRM', 'KernelPLS') and c.chance(0.25):
        n, p = c.int(8, 11), c.int(12, 30)
    elif name in ('PLS1', 'SIMPLS', 'NIPALS') and c.chance(0.2):
        p = max(s.params['num_components'], c.int(1, 4))
        n = p + gen.rows(c, 3, 30, 150)
    d = s.data(c, n=n, p=p)
    if name == 'NIPALS':
        s.params.update(tol=1e-20, max_iter=3000)
    if c.chance(0.25):
        f = c.pick([1e-2, 100.0])
        if name not in ('VCPLS', 'KernelPLS', 'DIPLS', 'PRM'):
            d = {a: v * f for a, v in d.items()}
    o = s.build()
    mats = s.mats(c, d)
    msg = c.call(f'training of {s}', s.train, o, mats)
    c.ok(msg is None, f'{s}: {msg}')
    c.ok(sorted(o.get_matrix_names()) == sorted(NAMES[name]), f'{s}: advertises {o.get_matrix_names()}')
    m = Model(c, s, d, o)
    for a, v in m.m.items():
        c.ok(bool(np.all(np.isfinite(v))), f'{m.what}: {a} is not finite')
    c.ok(o.has_loadings() is (LOADINGS[name] is not None), f'{m.what}: has_loadings() is {o.has_loadings()}')
    if LOADINGS[name]:
        c.same(o.get_loadings(), m.m[LOADINGS[name]], f'{m.what}: loadings')
    JUDGES[name](m)
    c.sig(repr(s), m.raw)
    c.ev('model:' + name)
    c.sample({'model': repr(s), 'shape': m.raw.shape})


SCENARIOS = [('relations', relations, 3000, 60000)]
