"""Independent reference implementations (plain numpy) of the documented methods, and models of the listed findings."""
import numpy as np

from .common import Skip


def unit(v):
    n = np.sqrt((v ** 2).sum())
    if n < 1e-12:
        raise Skip()
    return v / n


def gap(vals, ratio=0.9):
    """Skips data whose dominant value is not separated from the next."""
    vals = np.sort(np.asarray(vals))[::-1]
    if len(vals) > 1 and vals[1] > ratio * vals[0]:
        raise Skip()


# ---- single-response PLS ------------------------------------------------------------------------------------------
class Pls1:
    """Wold's algorithm with deflation of X (no centering)."""

    def __init__(self, X, y, k, weights=None):
        self.W, self.P, self.T, self.b = [], [], [], []
        E = X.copy()
        tot = np.sqrt((X ** 2).sum())
        for _ in range(k):
            w = unit(E.T @ y) if weights is None else weights(E, y)
            t = E @ w
            tt = float((t ** 2).sum())
            if tt < 1e-10 * tot ** 2:
                raise Skip()
            p = E.T @ t / tt
            self.b.append(float((t * y).sum() / tt))
            self.W.append(w)
            self.P.append(p)
            self.T.append(t)
            E = E - t @ p.T
        self.W, self.P, self.T = (np.hstack(v) for v in (self.W, self.P, self.T))
        self.b = np.array(self.b).reshape(-1, 1)
        self.R = self.W @ np.linalg.inv(self.P.T @ self.W)
        self.coef = self.R @ self.b
        self.E = E

    def predict(self, X):
        return X @ self.coef

    def transform(self, X):
        return X @ self.R


def vc_weights(lam, nu=1e-7):
    from scipy.linalg import eigh

    def weights(E, y):
        p = E.shape[1]
        v = E.T @ y
        vals, vecs = eigh(v @ v.T - lam * np.eye(p), E.T @ E + nu * np.eye(p))
        rest = np.sort(vals)[::-1]
        if len(rest) > 1 and rest[0] - rest[1] < 1e-3 * (abs(rest[0]) + abs(rest[1])):
            raise Skip()
        return unit(vecs[:, [-1]])
    return weights


def krylov(X, y, k):
    """PLS coefficients by their variational definition: least squares over span{s, As, ..., A^(k-1)s}."""
    A, s = X.T @ X, X.T @ y
    K = []
    v = s
    for _ in range(k):
        for u in K:
            v = v - u * float((u * v).sum())
        v = unit(v)
        for u in K:
            v = v - u * float((u * v).sum())
        v = unit(v)
        K.append(v)
        v = A @ v
    K = np.hstack(K)
    return K @ np.linalg.lstsq(X @ K, y, rcond=None)[0]


# ---- multi-response NIPALS ----------------------------------------------------------------------------------------
class Nipals:
    """Converged NIPALS on standardised blocks (mode A, or mode B for CCA); scale=False for blocks used as they are."""

    def __init__(self, X, Y, k, canonical=False, norm_y=False, cca=False, sep=0.8, limit=None):
        self.xm, self.xs = X.mean(0), X.std(0, ddof=1)
        self.ym, self.ys = Y.mean(0), Y.std(0, ddof=1)
        cx, cy = np.ptp(X, axis=0) == 0, np.ptp(Y, axis=0) == 0  # constant columns take no part
        if np.any(self.xs[~cx] < 1e-9) or np.any(self.ys[~cy] < 1e-9) or cy.all() or cx.all():
            raise Skip()
        self.xm, self.ym = np.where(cx, X[0], self.xm), np.where(cy, Y[0], self.ym)
        self.xs, self.ys = np.where(cx, 1.0, self.xs), np.where(cy, 1.0, self.ys)
        E, F = (X - self.xm) / self.xs, (Y - self.ym) / self.ys
        q = Y.shape[1]
        W, C, P, Q, T, U = [], [], [], [], [], []
        for _ in range(k):
            if cca:
                ei = np.linalg.pinv(E, rcond=1e-10)
                fi = np.linalg.pinv(F, rcond=1e-10)
                # w = E+ u ; u = F c / cc ; c = F+ E w: dominant eigenvector of E+ F F+ E
                M = ei @ F @ fi @ E
                vals, vecs = np.linalg.eig(M)
                o = np.argsort(-np.abs(vals))
                if q > 1:
                    gap(np.abs(vals[o[:2]]), sep)
                    w = unit(np.real(vecs[:, [o[0]]]))
                else:
                    w = unit(ei @ F[:, [0]])
            elif limit is not None:
                w = self.loop(E, F, norm_y, *limit)
            else:
                u_, s_, _ = np.linalg.svd(E.T @ F, full_matrices=False)
                if len(s_) > 1:
                    gap(s_[:2] ** 2, sep)
                if s_[0] < 1e-6:
                    raise Skip()
                w = u_[:, [0]]
            t = E @ w
            c = (fi @ t) if cca else F.T @ t / (t ** 2).sum()
            if norm_y:
                c = unit(c)
            u = F @ c / (c ** 2).sum()
            if (t ** 2).sum() < 1e-8 or (u ** 2).sum() < 1e-8:
                raise Skip()
            p = E.T @ t / (t ** 2).sum()
            E = E - t @ p.T
            if canonical:
                v = F.T @ u / (u ** 2).sum()
                F = F - u @ v.T
            else:
                v = F.T @ t / (t ** 2).sum()
                F = F - t @ v.T
            for lst, x in zip((W, C, P, Q, T, U), (w, c, p, v, t, u)):
                lst.append(x)
        self.W, self.C, self.P, self.Q, self.T, self.U = (np.hstack(v) for v in (W, C, P, Q, T, U))
        if np.linalg.cond(self.P.T @ self.W) > 1e6:
            raise Skip()
        self.R = self.W @ np.linalg.inv(self.P.T @ self.W)
        self.coef = (self.R @ self.Q.T) * self.ys
        self.E, self.F = E, F

    @staticmethod
    def loop(E, F, norm_y, tol, passes):
        """The inner loop as published: it starts at the first response that is left and is cut off after so many passes."""
        left = (F ** 2).sum(0)
        if np.any((left > 0) & (left < 1e-12 * left.max())):
            raise Skip()
        u, old = F[:, [int(np.argmax(left > 0))]], np.zeros((E.shape[1], 1))
        for _ in range(passes):
            w = unit(E.T @ u)
            change = ((w - old) ** 2).sum()
            if tol and 0.999 < change / tol < 1.001 or 0 < change < 1e-24:
                raise Skip()  # rounding decides whether to go on
            t = E @ w
            v = F.T @ t / (t ** 2).sum()
            if norm_y:
                v = unit(v)
            u, old = F @ v / (v ** 2).sum(), w
            if change < tol or F.shape[1] == 1:
                break
        return w

    def predict(self, X):
        return (X - self.xm) / self.xs @ self.coef + self.ym

    def transform(self, X):
        return (X - self.xm) / self.xs @ self.R

    def transform_response(self, Y):
        G = self.Q.T @ self.C
        if self.Q.shape[0] == 1:
            return (Y - self.ym) / self.ys  # a single response is its own score
        if min(G.shape) > self.Q.shape[0] or np.linalg.cond(G) > 1e4:
            return None  # the scores of the responses are not determined
        return (Y - self.ym) / self.ys @ self.C @ np.linalg.inv(G)


# ---- kernel PLS ---------------------------------------------------------------------------------------------------
class Kpls:
    """Rosipal & Trejo; kern(A, B) evaluates the kernel on rows. biased: the test kernel centred as in finding KF5."""

    def __init__(self, X, Y, k, kern, sep=0.8):
        self.xm, self.ym = X.mean(0), Y.mean(0)
        self.X, self.kern = X - self.xm, kern
        F = Y - self.ym
        n = len(X)
        self.J = np.eye(n) - np.ones((n, n)) / n
        self.K0 = kern(self.X, self.X)
        self.K = self.J @ self.K0 @ self.J
        D = self.K.copy()
        T, U, Q = [], [], []
        scale = np.abs(self.K).max()
        for _ in range(k):
            # t <- D u, q = F't, u = F q : t is the dominant eigenvector of D F F'
            G = F.T @ D @ F
            vals, vecs = np.linalg.eigh((G + G.T) / 2)
            if len(vals) > 1:
                gap(np.abs(vals), sep)
            if vals[-1] < 1e-8 * scale * (F ** 2).sum():
                raise Skip()
            u = unit(F @ vecs[:, [-1]])
            t = unit(D @ u)
            q = F.T @ t
            u = unit(F @ q)
            H = np.eye(n) - t @ t.T
            D = H @ D @ H
            F = F - t @ q.T
            T.append(t)
            U.append(u)
            Q.append(q)
        self.T, self.U, self.Q, self.D = np.hstack(T), np.hstack(U), np.hstack(Q), D
        M = self.T.T @ self.K @ self.U
        if np.linalg.cond(M) > 1e7:
            raise Skip()
        self.B = np.linalg.inv(M) @ self.Q.T

    def kt(self, X, biased):
        Kt = self.kern(X - self.xm, self.X)
        n = self.K.shape[0]
        base = self.K if biased else self.K0
        return (Kt - np.ones((len(Kt), n)) / n @ base) @ self.J

    def transform(self, X, biased=False):
        return self.kt(X, biased) @ self.U

    def predict(self, X, biased=False):
        return self.transform(X, biased) @ self.B + self.ym


# ---- orthogonal signal ---------------------------------------------------------------------------------------------
class Opls:
    def __init__(self, X, y, k):
        w = unit(X.T @ y)
        E = X.copy()
        W, P, T = [], [], []
        for _ in range(k):
            t = E @ w
            p = E.T @ t / (t ** 2).sum()
            wo = p - w * float((w * p).sum())
            if np.sqrt((wo ** 2).sum()) < 1e-4 * np.sqrt((p ** 2).sum()):
                raise Skip()
            wo = unit(wo)
            to = E @ wo
            po = E.T @ to / (to ** 2).sum()
            E = E - to @ po.T
            W.append(wo)
            P.append(po)
            T.append(to)
        self.W, self.P, self.T, self.E = np.hstack(W), np.hstack(P), np.hstack(T), E

    def transform(self, X):
        """The orthogonal components removed one after the other."""
        for j in range(self.W.shape[1]):
            X = X - X @ self.W[:, [j]] @ self.P[:, [j]].T
        return X

    def at_once(self, X):
        """Finding KF12."""
        return X - X @ self.W @ self.P.T


# ---- domain-invariant PLS --------------------------------------------------------------------------------------------
class Dipls:
    """centers: column means (X, Xs, Xt) to use instead of those of the data (finding KF3)."""

    def __init__(self, xs, xt, ys, k, lam, mode, yt=None, xu=None, centers=None, prep=None):
        ns, nt = len(xs), len(xt)
        rows = [xs, xt] + ([xu] if mode == 'semisupervised' else [])
        y = ys if mode == 'unsupervised' else np.vstack([ys, yt])
        allx = np.vstack(rows)
        self.px, self.py = Prep(prep, allx), Prep(prep, y)
        allx, y = self.px(allx), self.py(y)
        Xs, Xt = allx[:ns], allx[ns:]
        X = {'unsupervised': Xs, 'supervised': allx, 'semisupervised': allx[:ns + nt]}[mode]
        self.centers = (X.mean(0), Xs.mean(0), Xt.mean(0)) if centers is None else centers
        X, Xs, Xt = X - self.centers[0], Xs - self.centers[1], Xt - self.centers[2]
        self.b0 = float(y.mean())
        f = y - self.b0
        p = X.shape[1]
        W, P, T, Ts, Tt, Ps, Pt, C = [], [], [], [], [], [], [], []
        for _ in range(k):
            ff = float((f ** 2).sum())
            if ff < 1e-8:
                raise Skip()
            D = Xs.T @ Xs / (ns - 1) - Xt.T @ Xt / (nt - 1)
            M = np.eye(p) + lam / (2 * ff) * D
            if np.linalg.cond(M) > 1e5:
                raise Skip()
            w = unit(np.linalg.solve(M.T, X.T @ f / ff))
            t, ts, tt = X @ w, Xs @ w, Xt @ w
            if min((t ** 2).sum(), (ts ** 2).sum(), (tt ** 2).sum()) < 1e-8:
                raise Skip()
            pp, ps, pt = (X.T @ t / (t ** 2).sum(), Xs.T @ ts / (ts ** 2).sum(), Xt.T @ tt / (tt ** 2).sum())
            ca = float((f * t).sum() / (t ** 2).sum())
            X, Xs, Xt, f = X - t @ pp.T, Xs - ts @ ps.T, Xt - tt @ pt.T, f - t * ca
            for lst, v in zip((W, P, T, Ts, Tt, Ps, Pt), (w, pp, t, ts, tt, ps, pt)):
                lst.append(v)
            C.append(ca)
        self.W, self.P, self.T, self.Ts, self.Tt, self.Ps, self.Pt = (np.hstack(v) for v in (W, P, T, Ts, Tt, Ps, Pt))
        M = self.P.T @ self.W
        if np.linalg.cond(M) > 1e6:
            raise Skip()
        self.b = self.W @ np.linalg.solve(M, np.array(C).reshape(-1, 1))
        self.mode = mode

    def transform(self, X):
        return (self.px(X) - self.centers[0]) @ self.W

    def predict(self, X):
        m = self.centers[2] if self.mode == 'unsupervised' else self.centers[0]
        return self.py.inverse((self.px(X) - m) @ self.b + self.b0)


class Prep:
    """The built-in preprocessing: 0 none, 1 centre, 2 standardise."""

    def __init__(self, kind, X):
        p = X.shape[1]
        self.m = X.mean(0) if kind else np.zeros(p)
        self.s = X.std(0, ddof=1) if kind == 2 else np.ones(p)
        if np.any(self.s < 1e-9):
            raise Skip()

    def __call__(self, X):
        return (X - self.m) / self.s

    def inverse(self, Y):
        return Y * self.s + self.m


def prep_code(params):
    v = params.get('preprocessing_type')
    return 0 if v is None else {'NONE': 0, 'CENTER': 1, 'STANDARDIZE': 2}[v.name]


# ---- sparse PLS -------------------------------------------------------------------------------------------------------
class Spls:
    def __init__(self, X, y, k, lam):
        self.xm, self.xs, self.ym, self.ys = X.mean(0), X.std(0, ddof=1), y.mean(0), y.std(0, ddof=1)
        if np.any(self.xs < 1e-9) or np.any(self.ys < 1e-9):
            raise Skip()
        Z, f = (X - self.xm) / self.xs, (y - self.ym) / self.ys
        B = np.zeros((X.shape[1], 1))
        r = f
        self.W, self.supports = [], []
        for i in range(k):
            z = Z.T @ r
            if np.abs(z).max() < 1e-7 * len(X):
                raise Skip()  # the response is exhausted
            z = z / np.median(np.abs(z))
            v = np.abs(z) - lam * np.abs(z).max()
            if np.any(np.abs(v) < 1e-6 * np.abs(z).max()) and lam > 0:
                raise Skip()  # a feature on the threshold
            w = np.where(v >= 0, v * np.sign(z), 0.0)
            w = w / (w ** 2).sum()
            self.W.append(w)
            small = (np.abs(w) > 1e-8) & (np.abs(w) < 1e-4) | (np.abs(B) > 1e-8) & (np.abs(B) < 1e-4)
            if small.any():
                raise Skip()
            A = np.flatnonzero((np.abs(w[:, 0]) > 1e-6) | (np.abs(B[:, 0]) > 1e-6))
            self.supports.append(A)
            m = Nipals(Z[:, A], f, min(len(A), i + 1))
            B = np.zeros_like(B)
            B[A] = m.coef
            r = f - Z @ B
        self.W, self.B, self.A = np.hstack(self.W), B, A

    def predict(self, X):
        return (X - self.xm) / self.xs @ self.B * self.ys + self.ym

    def raw_transform(self, X):
        """Finding KF10: raw predictors, deflated with the loadings of the queried batch itself."""
        E, T = X.copy(), []
        for i in range(self.W.shape[1]):
            t = E @ self.W[:, [i]]
            T.append(t)
            E = E - t @ (E.T @ t / (t ** 2).sum()).T
        return np.hstack(T)

    def transform(self, X, train, W):
        """Scores of standardised predictors, deflated with the training loadings of the directions W."""
        E, Z = (train - self.xm) / self.xs, (X - self.xm) / self.xs
        T = []
        for i in range(W.shape[1]):
            t = E @ W[:, [i]]
            p = E.T @ t / (t ** 2).sum()
            T.append(Z @ W[:, [i]])
            Z = Z - T[-1] @ p.T
            E = E - t @ p.T
        return np.hstack(T)


# ---- partial robust M-regression ----------------------------------------------------------------------------------------
class Prm:
    """inverted: the loop condition of finding KF8 (stops after the first pass unless it changed nothing)."""

    def __init__(self, X, y, k, C, tol=1e-6, max_iter=500, inverted=False):
        self.V = None
        Z = X
        if X.shape[1] > X.shape[0]:
            u, s, vt = np.linalg.svd(X.T, full_matrices=False)
            if s[-1] < 1e-8 * s[0]:
                raise Skip()
            self.V, Z = u, vt.T * s
        fair = lambda v: 1.0 / (1.0 + np.abs(v / C)) ** 2  # noqa: E731

        def mad(v):
            return np.median(np.abs(v - np.median(v)))

        def leverage(M):
            g = self.median(M, tol, max_iter)
            d = np.sqrt(((M - g) ** 2).sum(1))
            return fair(d / np.median(d))

        r = y[:, 0] - np.median(y)
        wr, wx = fair(r / mad(r)), leverage(Z)
        gamma = np.zeros((k, 1))
        it = 0
        while True:
            s = np.sqrt(wr * wx).reshape(-1, 1)
            m = Pls1(Z * s, y * s, k)
            old = gamma
            # SIMPLS scores are the deflation scores scaled to unit length
            norms = np.sqrt((m.T ** 2).sum(0))
            R = m.R / norms
            T = (Z * s) @ R / s
            gamma = ((m.T / norms).T @ (y * s))
            yy = (y * s) if inverted else y
            r = (yy - T @ gamma)[:, 0]
            wr, wx = fair(r / mad(r)), leverage(T)
            it += 1
            change = float(((gamma - old) ** 2).sum())
            if inverted:
                if change >= tol or it >= max_iter:
                    break
            elif change < tol or it >= max_iter:
                break
        self.wr, self.wx = wr.reshape(-1, 1), wx.reshape(-1, 1)
        self.coef = m.coef if self.V is None else self.V @ m.coef
        self.R = R if self.V is None else self.V @ R
        self.iterations = it

    @staticmethod
    def median(M, tol, max_iter):
        g = M.mean(0)
        for _ in range(max_iter):
            d = np.sqrt(((M - g) ** 2).sum(1))
            w = np.where(d < 1e-10, 10.0, 1.0 / np.where(d < 1e-10, 1.0, d))
            n = (M * w[:, None]).sum(0) / w.sum()
            change = float(((n - g) ** 2).sum())
            g = n
            if change < tol:
                break
        return g

    def predict(self, X):
        return X @ self.coef

    def transform(self, X):
        return X @ self.R
