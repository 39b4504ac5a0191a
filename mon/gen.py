"""Workload generators: shapes, values, storage layouts, data sets."""
import numpy as np

from .common import Skip


def dim(c, big=True):
    r = c.rng.random()
    if r < 0.18:
        return 1
    if r < 0.30:
        return 2
    if r < 0.75:
        return c.int(3, 8)
    if r < 0.95 or not big:
        return c.int(9, 20)
    if r < 0.985:
        return c.int(21, 70)
    return c.int(71, 140)


def shape(c, big=True):
    if c.chance(0.003):  # long and narrow
        n, p = int(np.exp(c.uni(np.log(250), np.log(3000)))), c.pick([1, 2, 3])
        c.ev('thousands of rows or columns')
        return (n, p) if c.chance(0.6) else (p, n)
    r = c.rng.random()
    if r < 0.06:
        return 1, 1
    if r < 0.16:
        return 1, dim(c, big)
    if r < 0.26:
        return dim(c, big), 1
    if r < 0.42:
        n = dim(c, big)
        return n, n
    return dim(c, big), dim(c, big)


KINDS = ('normal', 'uniform', 'ints', 'offset', 'mixed', 'huge', 'tiny', 'sparse', 'constant', 'dup', 'negative',
         'positive', 'halves', 'unit', 'sorted')


def values(c, n, p, kind=None):
    rng = c.rng
    kind = kind or c.pick(KINDS)
    if kind == 'normal':
        return rng.normal(size=(n, p))
    if kind == 'uniform':
        return rng.uniform(-10, 10, size=(n, p))
    if kind == 'ints':
        return rng.integers(-4, 5, size=(n, p)).astype(float)
    if kind == 'offset':
        return rng.normal(size=(n, p)) + c.pick([1e3, -1e4, 50.0])
    if kind == 'mixed':
        return rng.normal(size=(n, p)) * 10.0 ** rng.integers(-6, 7, size=(n, p))
    if kind == 'huge':
        return rng.normal(size=(n, p)) * 1e120
    if kind == 'tiny':
        return rng.normal(size=(n, p)) * 1e-120
    if kind == 'sparse':
        return rng.normal(size=(n, p)) * (rng.random((n, p)) < 0.4)
    if kind == 'constant':
        return np.full((n, p), rng.normal())
    if kind == 'dup':
        base = rng.normal(size=4)
        return base[rng.integers(0, 4, size=(n, p))]
    if kind == 'negative':
        return -np.abs(rng.normal(size=(n, p))) - 0.1
    if kind == 'positive':
        return np.abs(rng.normal(size=(n, p))) + 0.1
    if kind == 'halves':
        return rng.integers(-9, 10, size=(n, p)) / 2.0
    if kind == 'unit':
        return rng.random((n, p))
    if kind == 'sorted':
        return np.sort(rng.normal(size=n * p)).reshape(n, p)
    raise ValueError(kind)


MODERATE = ('normal', 'uniform', 'ints', 'offset', 'mixed', 'sparse', 'constant', 'dup', 'negative', 'positive',
            'halves', 'unit', 'sorted')


def special(c, a, p=0.5):
    """Plants a few NaN/infinite/zero/negative-zero cells."""
    a = a.copy()
    for _ in range(c.int(1, 3)):
        i, j = c.int(0, a.shape[0] - 1), c.int(0, a.shape[1] - 1)
        a[i, j] = c.pick([np.nan, np.inf, -np.inf, 0.0, -0.0])
    return a


def mat(c, a):
    """A Matrix holding a, in one of several storage layouts."""
    from wai.ma.core.matrix import Matrix, factory
    a = np.array(a, dtype=float)
    if a.size and c.chance(0.3):
        m = narrow(c, a)
        if m is not None:
            return m
    r = c.int(0, 6)
    if r <= 1:
        return factory.create(a.tolist() if a.size and c.chance(0.3) else a)
    if r == 2:
        return Matrix(np.asfortranarray(a))
    if r == 3:  # strided view into a larger buffer
        buf = np.full((a.shape[0] * 2 + 1, a.shape[1] + 2), 7.7)
        view = buf[1::2, 1:-1][:a.shape[0]]
        view[...] = a
        return Matrix(view)
    if r == 4:  # result of an operation
        return Matrix(a.T.copy()).transpose()
    if r == 5:
        m = Matrix(np.vstack([a, a]))
        return m.get_rows((0, a.shape[0]))
    return Matrix(a.copy())


def rewrite(c, m, a):
    """Replaces the contents of a Matrix by those of an array of its shape, through its in-place operations."""
    from wai.ma.core.matrix import Matrix
    r = c.int(0, 3)
    n, p = a.shape
    if r == 0:
        for i in range(n):
            m.set_row(i, Matrix(a[i:i + 1].copy()))
    elif r == 1:
        for j in range(p):
            m.set_column(j, Matrix(a[:, j:j + 1].copy()))
    elif r == 2:
        for i in range(n):
            for j in range(p):
                if m.get(i, j) != a[i, j]:
                    m.set(i, j, a[i, j])
    else:
        old = m.data.copy()
        for i in range(n):
            if not np.array_equal(old[i], a[i]):
                m.set_row(i, Matrix(a[i:i + 1].copy()))
    assert np.array_equal(m.data, a)


def edited(c, a, scale=None):
    """Another array that resembles a: one or several cells, rows or columns differ."""
    a = a.copy()
    n, p = a.shape
    s = np.abs(a).max() + 1e-9 if scale is None else scale
    r = c.int(0, 4)
    if r == 0:
        a[c.pick([0, n - 1, c.int(0, n - 1)]), c.pick([0, p - 1, c.int(0, p - 1)])] += c.pick([-1, 1]) * c.uni(0.3, 1) * s
    elif r == 1:
        i = c.pick([0, n - 1, c.int(0, n - 1)])
        a[i] += c.rng.normal(size=p) * s
    elif r == 2:
        j = c.pick([0, p - 1, c.int(0, p - 1)])
        a[:, j] += c.rng.normal(size=n) * s
    elif r == 3:
        a = a[c.perm(n)]
    else:
        a = a + c.rng.normal(size=a.shape) * s
    return a


def narrow(c, a):
    """A Matrix made from the same numbers of another type (integers, single precision), if they fit one exactly."""
    from wai.ma.core.matrix import Matrix
    with np.errstate(all='ignore'):
        if np.isfinite(a).all() and not np.any(np.signbit(a) & (a == 0)) and np.abs(a).max() < 100 and \
                np.all(a == np.round(a)):
            t = c.pick([int, np.int32, np.int8, np.float32])
        elif np.array_equal(a.astype(np.float32).astype(float), a, equal_nan=True):
            t = np.float32
        else:
            return None
    c.ev('matrix made from ' + np.dtype(t).name)
    return Matrix(a[0].astype(t) if len(a) == 1 and c.chance(0.3) else a.astype(t))


def plain(a):
    from wai.ma.core.matrix import Matrix
    return Matrix(np.array(a, dtype=float))


def matrix(c, n=None, p=None, kind=None, big=True):
    """(array, Matrix) of the same contents."""
    if n is None:
        n, p = shape(c, big)
    a = values(c, n, p, kind)
    return a, mat(c, a)


def well_conditioned(c, n, p, cond=30.0, scale=None):
    """Columns well scaled, all singular values (of the centred matrix) within a factor of cond."""
    if n < 2:
        return c.rng.normal(size=(n, p))
    for _ in range(20):
        a = c.rng.normal(size=(n, p))
        k = min(n - 1, p)
        u, s, v = np.linalg.svd(a - a.mean(0), full_matrices=False)
        s2 = np.exp(c.rng.uniform(0, np.log(cond) * 0.8, size=len(s)))
        s2 = np.sort(s2)[::-1]
        s2[k:] = 0
        b = (u * s2) @ v + c.rng.normal(size=p) * c.pick([0.0, 1.0, 5.0])
        if scale:
            b = b * scale
        return b
    raise Skip()


def regression(c, n, p, q=1, noise=0.1, center=None, cond=30.0):
    """A well-conditioned predictor block and q responses depending on it."""
    x = well_conditioned(c, n, p, cond)
    b = c.rng.normal(size=(p, q))
    y = x @ b
    y = y + noise * (y.std(0) + 0.1) * c.rng.normal(size=y.shape) + c.rng.normal(size=q)
    if c.chance(0.1):  # single precision values
        x, y = x.astype(np.float32).astype(float), y.astype(np.float32).astype(float)
    if center:
        x, y = x - x.mean(0), y - y.mean(0)
    return x, y


def rows(c, lo, hi, top=260, huge=0):
    """A number of rows between lo and hi, now and then a much larger one (at times up to huge)."""
    if huge and c.chance(0.004):
        c.ev('thousands of rows or columns')
        return int(np.exp(c.uni(np.log(max(lo, top)), np.log(huge))))
    if c.chance(0.04):
        n = c.int(max(lo, hi), max(hi + 1, int(np.exp(c.uni(np.log(30), np.log(top))))))
        c.ev('large number of rows or columns')
        return n
    return c.int(lo, hi)
