"""C03: decompositions judged by their defining equations on the contents at the time of the query."""
import numpy as np

from wai.ma.core.matrix import Matrix, helper

from .. import gen, instr
from ..common import Skip, arr

RULE = ('histories of decomposition queries, in-place updates by every mutator of the API and scribbling on returned '
        'factors; every answer is checked against its defining equations for the contents mirrored in numpy at that '
        'moment; distinct: different (history, contents)')
ASSUMPTIONS = ['residual tolerance 1e-8 relative to the matrix norm (backward stable solvers are below 1e-12)',
               'for a pseudo-inverse, spectra with singular values between 1e-16 and 1e-10 of the largest are outside '
               'the domain (numerical rank undefined)',
               'an eigen decomposition is not judged where the general LAPACK solver itself misses the tolerance '
               '(entries at rounding level of others)', 'sorting is judged for real spectra only']
TOL = 1e-8


def worker_init():
    instr.install(cache=True, objects=False)


worker_report = instr.report


def sym(c, n):
    rng = c.rng
    kind = c.int(0, 6)
    if kind == 0:
        a = rng.normal(size=(n, n))
        return a + a.T
    if kind == 1:
        a = rng.normal(size=(n + 2, n))
        return a.T @ a
    if kind == 2:   # rank deficient gram matrix
        a = rng.normal(size=(max(1, n // 2), n))
        return a.T @ a
    if kind == 3:   # repeated eigenvalues
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        lam = rng.integers(-1, 3, size=n).astype(float)
        a = (q * lam) @ q.T
        return (a + a.T) / 2
    if kind == 4:
        return np.diag(rng.integers(-3, 4, size=n).astype(float))
    if kind == 5:
        a = rng.integers(-3, 4, size=(n, n)).astype(float)
        return a + a.T
    return np.full((n, n), 1.0) * rng.normal() + np.eye(n) * rng.integers(0, 2)


def graded(c, n, p):
    m = min(n, p)
    u, v = (np.linalg.qr(c.rng.normal(size=(r, m)))[0] for r in (n, p))
    return (u * 10.0 ** -np.sort(c.rng.uniform(0, c.pick([3.0, 6.0, 9.5]), size=m))) @ v.T


def square(c, n):
    rng = c.rng
    kind = c.int(0, 7)
    if kind == 7:
        return graded(c, n, n)
    if kind <= 2:
        return sym(c, n)
    if kind == 3:
        return rng.normal(size=(n, n))
    if kind == 4:  # real distinct spectrum, not symmetric
        for _ in range(10):
            v = rng.normal(size=(n, n))
            if np.linalg.cond(v) < 50:
                return (v * (np.arange(n) * 1.7 - 2 + rng.random())) @ np.linalg.inv(v)
        return rng.normal(size=(n, n))
    if kind == 5:
        return np.triu(rng.integers(-3, 4, size=(n, n)).astype(float))
    return rng.integers(-3, 4, size=(n, n)).astype(float)


def rect(c):
    n, p = c.int(1, 9), c.int(1, 9)
    k = c.int(0, 5)
    if k == 5:  # singular values over many orders of magnitude
        return graded(c, n, p)
    if k == 0 and min(n, p) > 1:  # rank deficient through zero rows / columns
        a = np.zeros((n, p))
        r, s = c.int(1, n - 1), c.int(1, p - 1)
        rows, cols = c.perm(n)[:r], c.perm(p)[:s]
        a[np.ix_(rows, cols)] = c.rng.normal(size=(r, s))
        return a
    if k == 1 and min(n, p) > 1:
        a = c.rng.normal(size=(n, p))
        a[:, -1] = a[:, 0]
        return a
    if k == 2:
        return c.rng.normal(size=(n, p)) * c.pick([1e-8, 1e8])
    return c.rng.normal(size=(n, p))


def norm(a):
    return max(float(np.abs(a).max()), 1e-300) * max(a.shape)


def is_sym(a):
    return a.shape[0] == a.shape[1] and np.abs(a - a.T).max() <= 1e-14 * max(np.abs(a).max(), 1e-300)


def check_pairs(c, a, vals, vecs, what):
    n = a.shape[0]
    c.ok(vecs.shape == (n, n), f'{what}: eigenvector matrix {vecs.shape}')
    c.ok(np.isfinite(vecs).all() and np.isfinite(vals).all(), f'{what}: not finite')
    c.ok(float(np.abs(a @ vecs - vecs * vals).max()) <= TOL * norm(a) or not instr.solvable(a, 0.1 * TOL * norm(a)),
         f'{what}: A v != lambda v, residual {np.abs(a @ vecs - vecs * vals).max():.3g} for {a.tolist()}')
    nrm = np.linalg.norm(vecs, axis=0)
    c.ok(bool(np.all(np.abs(nrm - 1) < 1e-6)), f'{what}: eigenvectors are not of unit length')
    if is_sym(a):
        c.ok(not np.iscomplexobj(vecs) and not np.iscomplexobj(vals), f'{what}: symmetric but complex')
        c.ok(float(np.abs(vecs.T @ vecs - np.eye(n)).max()) < 1e-7,
             f'{what}: eigenvectors of a symmetric matrix are not orthonormal, {a.tolist()}')
        c.ok(bool(np.allclose(np.sort(vals), np.linalg.eigvalsh(a), 0, TOL * norm(a))), f'{what}: spectrum')


def rayleigh(a, vecs):
    return np.array([(v.conj() @ a @ v) / (v.conj() @ v) for v in vecs.T])


def query(c, m, a):
    n, p = a.shape
    sq = n == p
    opts = ['svd', 'sv', 'pinv', 'inverse'] + (['eig', 'eig', 'sorted', 'sorted', 'dominant', 'D', 'solve'] if sq else [])
    w = c.pick(opts)
    c.ev('query:' + w)
    scale = norm(a)
    out = []
    if w == 'svd':
        u, s, v = m.svd_U(), m.svd_S(), m.svd_V()
        out = [u, s, v]
        u, s, v = arr(u, 'svd_U'), arr(s, 'svd_S'), arr(v, 'svd_V')
        k = min(n, p)
        c.ok(u.shape == (n, k) and s.shape == (k, k) and v.shape == (k, p), 'svd shapes')
        c.ok(float(np.abs(u @ s @ v - a).max()) <= TOL * scale, 'U S V != A')
        c.ok(float(np.abs(u.T @ u - np.eye(k)).max()) < 1e-8 and float(np.abs(v @ v.T - np.eye(k)).max()) < 1e-8,
             'singular factors are not orthonormal')
        d = np.diag(s)
        c.ok(bool(np.all(s == np.diag(d))) and bool(np.all(d >= 0)) and bool(np.all(np.diff(d) <= 0)),
             'singular values are not a descending non-negative diagonal')
    elif w == 'sv':
        r = m.get_singular_values()
        out = [r]
        d = c.shape(r, min(n, p), 1, 'get_singular_values').ravel()
        c.ok(bool(np.all(np.diff(d) <= 0)) and bool(np.allclose(d, np.linalg.svd(a, compute_uv=False), 0, TOL * scale)),
             'get_singular_values')
    elif w in ('pinv', 'inverse'):
        sv = np.linalg.svd(a, compute_uv=False)
        if sv[0] == 0:
            rank, gray = 0, False
        else:
            rel = sv / sv[0]
            rank = int((rel > 1e-10).sum())
            gray = bool(((rel > 1e-16) & (rel <= 1e-10)).any())
        full = rank == min(n, p)
        if w == 'inverse' and sq and (not full):
            if not a.any():
                c.refused(lambda: m.inverse(), 'inverse of a zero matrix')
            return
        if gray or (w == 'inverse' and not full):
            return
        r = m.pseudo_inverse() if w == 'pinv' else (m.inverse() if c.chance(0.6) else helper.inverse(m))
        out = [r]
        x = c.shape(r, p, n, w)
        cond = sv[0] / sv[rank - 1] if rank else 1.0
        t = 1e-11 * cond + 1e-11
        c.ok(float(np.abs(a @ x @ a - a).max()) <= t * scale, f'{w}: A X A != A')
        c.ok(float(np.abs(x @ a @ x - x).max()) <= t * cond * norm(x), f'{w}: X A X != X')
        c.ok(float(np.abs(a @ x - (a @ x).T).max()) <= t * cond and float(np.abs(x @ a - (x @ a).T).max()) <= t * cond,
             f'{w}: A X or X A not symmetric')
        if sq and full:
            c.ok(float(np.abs(a @ x - np.eye(n)).max()) <= t * cond, f'{w}: A X != I')
        if full:  # no direction is left out, however small
            prod = x @ a if n >= p else a @ x
            worst = float(np.abs(prod - np.eye(len(prod))).max())
            c.ok(worst <= 1e-12 * cond + 1e-9, f'{w}: off the identity by {worst} at condition number {cond:.3g}')
            c.ev(f'inverted at condition 1e{int(np.log10(cond)) // 3 * 3}')
    elif w == 'eig':
        vals, vecs = m.get_eigenvalues(), (m.get_eigenvectors() if c.chance(0.5) else m.get_eigenvalue_decomposition_V())
        out = [vals, vecs]
        v = arr(vals, 'get_eigenvalues', True)
        c.ok(v.shape == (n, 1), f'get_eigenvalues shape {v.shape}')
        check_pairs(c, a, v.ravel(), arr(vecs, 'get_eigenvectors', True), 'eigen decomposition')
    elif w == 'D':
        d, vecs = m.get_eigenvalue_decomposition_D(), m.get_eigenvalue_decomposition_V()
        out = [d, vecs]
        dd = arr(d, 'D', True)
        c.ok(dd.shape == (n, n) and bool(np.all(dd == np.diag(np.diag(dd)))), 'D is not diagonal')
        check_pairs(c, a, np.diag(dd), arr(vecs, 'V', True), 'decomposition V D')
    elif w in ('sorted', 'dominant'):
        ev = np.linalg.eigvals(a)
        if not is_sym(a):  # only spectra that are certainly real and simple
            ev = np.sort_complex(ev)
            gaps = np.abs(np.diff(ev)).min() if n > 1 else 1.0
            if np.abs(np.imag(ev)).max() > 0 or gaps < 1e-4 * scale or \
                    np.linalg.cond(np.linalg.eig(a)[1]) > 1e3:
                return
        want = np.sort(np.linalg.eigvalsh(a) if is_sym(a) else np.real(ev))
        if w == 'dominant':
            r = m.get_dominant_eigenvector()
            out = [r]
            v = c.shape(r, n, 1, 'get_dominant_eigenvector')
            c.ok(abs(np.linalg.norm(v) - 1) < 1e-6, 'dominant eigenvector is not of unit length')
            c.ok(float(np.abs(a @ v - want[-1] * v).max()) <= TOL * scale, 'dominant eigenvector is not the one of the '
                 'largest eigenvalue')
            return scribble(c, out)
        asc = c.chance(0.5)
        vals = m.get_eigenvalues_sorted_ascending() if asc else m.get_eigenvalues_sorted_descending()
        if asc:
            vecs = m.get_eigenvectors_sorted_ascending()
        else:
            vecs = m.get_eigenvectors_sorted_descending() if c.chance(0.5) else m.get_eigenvectors(True)
        out = [vals, vecs]
        d = c.shape(vals, n, 1, 'sorted eigenvalues').ravel()
        c.ok(bool(np.allclose(d, want if asc else want[::-1], 0, TOL * scale)),
             f'sorted eigenvalues {d} expected {want if asc else want[::-1]}')
        c.ok(bool(np.all(np.diff(d) >= 0)) if asc else bool(np.all(np.diff(d) <= 0)), 'order of sorted eigenvalues')
        check_pairs(c, a, d, c.shape(vecs, n, n, 'sorted eigenvectors'), 'sorted eigen decomposition')
    elif w == 'solve':
        if not np.isfinite(np.linalg.cond(a)) or np.linalg.cond(a) > 1e8:
            return
        b = c.rng.normal(size=(n, c.int(1, 3)))
        k = gen.mat(c, b)
        r = helper.solve(m, k)
        out = [r]
        x = c.shape(r, *b.shape, 'solve')
        c.ok(float(np.abs(a @ x - b).max()) <= 1e-9 * np.linalg.cond(a) * norm(b), 'solve: A x != b')
        c.same(k, b, 'right-hand side')
    scribble(c, out)


def scribble(c, out):
    """A returned factor belongs to the caller."""
    for r in out:
        if c.chance(0.5):
            r.data[...] = 99.5
            c.ev('scribbled on a factor')


def mutate(c, m, a, keep_sym):
    n, p = a.shape
    a = a.copy()
    w = c.int(0, 11)
    c.ev('update')
    # new entries of the magnitude of the old ones: a badly scaled matrix would let the solver's balancing lose the
    # small entries, which is no defect of the library
    s = float(10.0 ** np.round(np.log10(max(np.abs(a).max(), 1e-12)))) if a.any() else 1.0
    if w == 0:
        i, j, x = c.int(0, n - 1), c.int(0, p - 1), s * c.uni(-3, 3)
        m.set(i, j, x)
        a[i, j] = x
        if keep_sym and n == p:
            m.set(j, i, x)
            a[j, i] = x
    elif w == 1:
        i = c.int(0, n - 1)
        v = s * c.rng.normal(size=(1, p))
        m.set_row(i, gen.mat(c, v))
        a[i] = v
    elif w == 2:
        j = c.int(0, p - 1)
        v = s * c.rng.normal(size=(n, 1))
        m.set_column(j, gen.mat(c, v))
        a[:, j] = v[:, 0]
    elif w in (3, 4, 5, 6):
        name, fn = [('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('div', np.divide)][w - 3]
        v = c.rng.uniform(0.5, 2, size=(1, p) if c.chance(0.5) else (n, 1))
        v = v * (s if w < 5 else 1.0)
        if c.chance(0.3) and w < 6:
            m.vector_op_modify(gen.mat(c, v), fn)
        else:
            getattr(m, name + '_by_vector_modify')(gen.mat(c, v))
        a = fn(a, v)
    elif w >= 9:  # rearranging the contents: sums and norms stay as they were
        c.ev('rearranged')
        if w == 9:
            i, j = c.int(0, n - 1), c.int(0, n - 1)
            m.set_row(i, gen.mat(c, a[[j]]))
            m.set_row(j, gen.mat(c, a[[i]]))
            a[[i, j]] = a[[j, i]]
            if n == p and keep_sym:
                m.set_column(i, gen.mat(c, a[:, [j]]))
                m.set_column(j, gen.mat(c, a[:, [i]]))
                a[:, [i, j]] = a[:, [j, i]]
        elif w == 10:
            j = c.int(0, p - 1)
            r = c.perm(n)
            m.set_column(j, gen.mat(c, a[r][:, [j]]))
            a[:, j] = a[r, j]
        else:
            i = c.int(0, n - 1)
            r = c.perm(p)
            if c.chance(0.5):
                m.set_row(i, gen.mat(c, a[[i]][:, r]))
                a[i] = a[i, r]
            else:
                k = [float(x) for x in a[i, r]]
                for j in range(p):
                    m.set(i, j, k[j])
                a[i] = k
    elif w == 7:
        x = s * c.uni(-3, 3)
        helper.fill_diagonal(m, x)
        np.fill_diagonal(a[:min(n, p), :min(n, p)], x)
    else:
        x = float(c.int(-2, 2))
        for i in range(n):
            m.set(i, 0, s * (x + i))
            a[i, 0] = s * (x + i)
    return a


def history(c):
    if c.chance(0.75):
        n = c.pick([1, 2, 3, 4, 5, 7])
        a = sym(c, n) if c.chance(0.5) else square(c, n)
    else:
        a = rect(c)
    if c.chance(0.1):
        a = a * c.pick([1e-6, 1e6])
    m = gen.mat(c, a)
    log = 0
    for _ in range(c.int(2, 10)):
        if c.chance(0.6):
            query(c, m, a)
        elif c.chance(0.15):
            k = m
            m = m.copy()
            if c.chance(0.5):  # the original moves on, the copy must not follow
                mutate(c, k, a, False)
        else:
            a = mutate(c, m, a, c.chance(0.5))
            c.elem(m, a, 'contents after the update', 1e-13)
        log += 1
    c.sig('history', a, log)
    c.sample({'steps': log, 'shape': a.shape})


def single(c):
    """One query on a fresh matrix of a targeted class."""
    r = c.int(0, 3)
    if r == 0:
        a = sym(c, c.pick([1, 2, 3, 5, 8, 12, 20]))
    elif r == 1:
        a = square(c, c.pick([2, 3, 4, 6, 10]))
    else:
        a = rect(c)
    c.sig('single', a)
    m = gen.mat(c, a)
    for _ in range(2):
        query(c, m, a)
    c.same(m, a, 'contents after queries')


def refusals(c):
    n, p = c.int(1, 6), c.int(1, 6)
    if n == p:
        p += 1
    m = gen.mat(c, c.rng.normal(size=(n, p)))
    c.sig('refuse', n, p)
    f = c.pick([lambda: m.get_eigenvalues(), lambda: m.get_eigenvectors(), lambda: m.get_dominant_eigenvector(),
                lambda: helper.solve(m, Matrix(np.ones((n, 1)))),
                lambda: helper.solve(Matrix(np.zeros((n, n))), Matrix(np.ones((n, 1)))),
                lambda: Matrix(np.ones((n + 1, n + 1))).inverse() if n < 2 else Matrix(np.zeros((n, n))).inverse()])
    c.refused(f, f'decomposition of a non-square {n}x{p} or singular matrix')


SCENARIOS = [('history', history, 12000, 200000), ('single', single, 6000, 80000), ('refusal', refusals, 400, 4000)]
