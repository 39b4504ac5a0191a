"""C01: every Matrix operation against an independent numpy oracle."""
import math

import numpy as np

from wai.ma.core.matrix import Matrix, factory, helper

from .. import gen, instr
from ..common import arr

RULE = ('one operation on generated operands per evaluation (15 value classes, all shape classes, 7 storage layouts, '
        'planted NaN/infinite cells where the operation is defined on them), result compared cell by cell with an '
        'independent numpy/python oracle, or a refusal demanded for ill-fitting operands; distinct: different '
        '(operation, shapes, operand contents)')
ASSUMPTIONS = ['numpy is the trusted arithmetic', 'norm2 of a non-vector is Frobenius/sqrt(min(rows, columns)), as '
               'pinned by the repository tests']


def worker_init():
    instr.install(objects=False)


worker_report = instr.report
OPS = []
BAD = []


def op(f):
    OPS.append(f)
    return f


def bad(f):
    BAD.append(f)
    return f


def operand(c, kinds=None, nan=0.15, n=None, p=None, big=True):
    kind = c.pick(kinds) if kinds else None
    if n is None:
        n, p = gen.shape(c, big)
    a = gen.values(c, n, p, kind)
    if nan and c.chance(nan):
        a = gen.special(c, a)
    return a, gen.mat(c, a)


def number(c):
    return c.pick([0, 1, -1, 2, -3, 0.5, -0.25, 1e10, 1e-10, 3.7, np.float64(-2.5), c.uni(-5, 5), 7])


def elementwise(name, fn):
    @op
    def f(c):
        a, m = operand(c)
        b, k = operand(c, n=a.shape[0], p=a.shape[1])
        c.sig(name, a, b)
        c.elem(getattr(m, name)(k), fn(a, b), name)
    f.__name__ = name


elementwise('add', np.add)
elementwise('sub', np.subtract)
elementwise('mul_elementwise', np.multiply)
elementwise('div_elementwise', np.divide)


def scalar_op(name, fn, nonzero=False):
    @op
    def f(c):
        a, m = operand(c)
        s = number(c)
        if nonzero and s == 0:
            s = 2
        c.sig(name, 'scalar', a, s)
        c.elem(getattr(m, name)(s), fn(a, s), f'{name}({s!r})')
    f.__name__ = name + '_scalar'


scalar_op('add', np.add)
scalar_op('sub', np.subtract)
scalar_op('mul', np.multiply)
scalar_op('div', np.divide, True)


@op
def mul_matrix(c):
    n, k, p = gen.dim(c), gen.dim(c), gen.dim(c)
    a, m = operand(c, nan=0, n=n, p=k)
    b, q = operand(c, nan=0, n=k, p=p)
    c.sig('mul', a, b)
    c.ok(m.is_multiplicable_with(q) is True or m.is_multiplicable_with(q) == True, 'is_multiplicable_with')  # noqa
    r = c.shape(m.mul(q), n, p, 'mul')
    e = np.einsum('ik,kj->ij', a, b)
    bound = np.einsum('ik,kj->ij', np.abs(a), np.abs(b))
    c.ok(bool(np.all(np.abs(r - e) <= 1e-12 * bound)), f'mul: {r} expected {e}')


@op
def vector_dot(c):
    n = gen.dim(c)
    a, b = gen.values(c, 1, n).ravel(), gen.values(c, 1, n).ravel()
    x = gen.mat(c, a.reshape(1, -1) if c.chance(0.5) else a.reshape(-1, 1))
    y = gen.mat(c, b.reshape(1, -1) if c.chance(0.5) else b.reshape(-1, 1))
    c.sig('dot', a, b)
    c.scalar(x.vector_dot(y), math.fsum(a * b), 'vector_dot', 1e-12, np.abs(a * b).sum())


@op
def vector_ops(c):
    a, m = operand(c)
    n, p = a.shape
    row = c.chance(0.5)
    v = gen.values(c, 1, p) if row else gen.values(c, n, 1)
    k = gen.mat(c, v)
    name, fn = c.pick([('add', np.add), ('sub', np.subtract), ('mul', np.multiply)])
    c.sig('by_vector', name, a, v)
    c.ok(bool(m.vector_size_matches(k)), 'vector_size_matches')
    how = c.int(0, 1)
    if how == 0:
        c.elem(getattr(m, name + '_by_vector')(k), fn(a, v), name + '_by_vector')
    else:
        c.elem(m.vector_op(k, fn), fn(a, v), 'vector_op')
    c.same(m, a, 'receiver of a non-modifying operation')


@op
def vector_ops_modify(c):
    a, m = operand(c)
    n, p = a.shape
    row = c.chance(0.5)
    v = gen.values(c, 1, p) if row else gen.values(c, n, 1)
    k = gen.mat(c, v)
    name, fn = c.pick([('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('div', np.divide)])
    c.sig('by_vector_modify', name, a, v)
    if c.chance(0.2):
        m.vector_op_modify(k, fn)
    else:
        getattr(m, name + '_by_vector_modify')(k)
    c.elem(m, fn(a, v), name + '_by_vector_modify')
    c.same(k, v, 'vector argument')


@op
def scale_by_row_vector(c):
    a, m = operand(c)
    v, k = operand(c, n=a.shape[1], p=1)
    c.sig('scale_row', a, v)
    c.elem(m.scale_by_row_vector(k), a * v.ravel()[None, :], 'scale_by_row_vector')


@op
def scale_by_column_vector(c):
    a, m = operand(c)
    v, k = operand(c, n=a.shape[0], p=1)
    c.sig('scale_col', a, v)
    c.elem(m.scale_by_column_vector(k), a * v, 'scale_by_column_vector')


@op
def power(c):
    e = c.pick([0, 1, 2, 3, 4, 5, -1, -2, 0.5, 1.5, -0.5, 2.0, 3.0])
    kinds = ('positive', 'unit') if e != int(e) or e < 0 else gen.MODERATE
    a, m = operand(c, kinds, nan=0)
    if e < 0:
        a = a + 0.1
        m = gen.mat(c, a)
    c.sig('pow', a, e)
    want = np.array([[float(x) ** float(e) if x != 0 or e >= 0 else np.inf for x in r] for r in a])
    c.elem(m.pow_elementwise(e), want.reshape(a.shape), f'pow_elementwise({e})', 1e-11)


@op
def sqrt_exp_tanh(c):
    w = c.int(0, 2)
    if w == 0:
        a, m = operand(c, ('positive', 'unit', 'constant'), nan=0)
        a = np.abs(a)
        m = gen.mat(c, a)
        got, f = m.sqrt(), math.sqrt
    elif w == 1:
        a, m = operand(c, ('normal', 'uniform', 'ints', 'sparse', 'halves', 'dup'), nan=0)
        got, f = m.exp(), math.exp
    else:
        a, m = operand(c, gen.MODERATE, nan=0)
        got, f = m.tanh(), math.tanh
    c.sig(f.__name__, a)
    c.elem(got, np.array([[f(x) for x in r] for r in a]).reshape(a.shape), f.__name__, 1e-11)


@op
def transpose(c):
    a, m = operand(c)
    c.sig('T', a)
    c.same(m.transpose() if c.chance(0.7) else m.t(), a.T, 'transpose')


@op
def abs_sign(c):
    a, m = operand(c, nan=0)
    c.sig('abs', a)
    c.same(m.abs(), np.abs(a), 'abs')
    c.same(m.sign(), np.where(a > 0, 1.0, np.where(a < 0, -1.0, 0.0)), 'sign')


@op
def abs_sign_inf(c):
    a, m = operand(c)
    a = np.where(np.isnan(a), np.inf, a)
    m = gen.mat(c, a)
    c.sig('absinf', a)
    c.same(m.abs(), np.abs(a), 'abs')
    c.same(m.sign(), np.sign(a), 'sign')


@op
def clip(c):
    a, m = operand(c, nan=0)
    lo, hi = sorted([number(c), number(c)])
    c.sig('clip', a, lo, hi)
    c.same(m.clip(lo, hi), np.minimum(np.maximum(a, lo), hi), f'clip({lo}, {hi})')
    c.same(m.clip_lower(lo), np.maximum(a, lo), f'clip_lower({lo})')
    c.same(m.clip_upper(hi), np.minimum(a, hi), f'clip_upper({hi})')


@op
def missing(c):
    """A missing value stays one: clipping does not fill it in, and no reduction over it is a number."""
    a, m = operand(c, nan=0)
    n, p = a.shape
    i, j = c.int(0, n - 1), c.int(0, p - 1)
    a[i, j] = np.nan
    if c.chance(0.3):
        a[c.int(0, n - 1), c.int(0, p - 1)] = c.pick([np.inf, -np.inf, np.nan])
        a[i, j] = np.nan
    m = gen.mat(c, a)
    c.sig('missing', a)
    lo, hi = sorted([number(c), number(c)])
    c.same(m.clip(lo, hi), np.minimum(np.maximum(a, lo), hi), f'clip({lo}, {hi}) with missing values')
    c.same(m.abs(), np.abs(a), 'abs with missing values')
    for name, x in (('median', m.median()), ('max', m.max()), ('sum', m.sum()), ('mean', m.mean()),
                    ('norm1', m.norm1()), ('norm2', m.norm2())):
        c.ok(bool(np.isnan(x)), f'{name} of a matrix with a missing value is {x!r}')
    for name, x in (('sum(0)', m.sum(0)), ('mean(0)', m.mean(0))):
        got = c.shape(x, 1, p, name)
        c.ok(bool(np.isnan(got[0, np.isnan(a).any(0)]).all()), f'{name} over a missing value: {got}')
    for name, x in (('sum(1)', m.sum(1)), ('mean(1)', m.mean(1))):
        got = c.shape(x, n, 1, name)
        c.ok(bool(np.isnan(got[np.isnan(a).any(1), 0]).all()), f'{name} over a missing value: {got}')


@op
def apply(c):
    a, m = operand(c)
    k = number(c)
    c.sig('apply', a, k)
    seen = []

    def body(x):
        seen.append(float(x))
        return x * 2 + k
    c.elem(m.apply_elementwise(body), a * 2 + k, 'apply_elementwise')
    c.ok(sorted(map(repr, seen)) == sorted(repr(float(x)) for x in a.ravel()), 'apply_elementwise visits every cell')


@op
def sums(c):
    a, m = operand(c, nan=0)
    c.sig('sum', a)
    n, p = a.shape
    scale = np.abs(a).sum()
    total = math.fsum(a.ravel())
    c.scalar(m.sum(), total, 'sum()', 1e-12, scale)
    c.scalar(m.sum(None), total, 'sum(None)', 1e-12, scale)
    c.close(c.shape(m.sum(-1), 1, 1, 'sum(-1)'), np.array([[total]]), 'sum(-1)', 1e-12, scale)
    c.close(m.sum(0), [[math.fsum(a[:, j]) for j in range(p)]], 'sum(0)', 1e-12, scale)
    c.close(m.sum(1), [[math.fsum(a[i])] for i in range(n)], 'sum(1)', 1e-12, scale)


@op
def means(c):
    a, m = operand(c, nan=0)
    c.sig('mean', a)
    n, p = a.shape
    scale = np.abs(a).max()
    total = math.fsum(a.ravel()) / a.size
    c.scalar(m.mean(), total, 'mean()', 1e-12, scale)
    c.close(c.shape(m.mean(-1), 1, 1, 'mean(-1)'), np.array([[total]]), 'mean(-1)', 1e-12, scale)
    c.close(m.mean(0), [[math.fsum(a[:, j]) / n for j in range(p)]], 'mean(0)', 1e-12, scale)
    c.close(m.mean(1), [[math.fsum(a[i]) / p] for i in range(n)], 'mean(1)', 1e-12, scale)


@op
def norms(c):
    a, m = operand(c, gen.MODERATE, nan=0)
    a = a * c.pick([1.0, 1.0, 1e60, 1e-60])
    m = gen.mat(c, a)
    c.sig('norm', a)
    n, p = a.shape
    s = np.abs(a).max()
    fro = s * math.sqrt(math.fsum(((a / s) ** 2).ravel())) if s else 0.0
    n2 = fro if min(n, p) == 1 else fro / math.sqrt(min(n, p))
    c.scalar(m.norm1(), math.fsum(np.abs(a).ravel()), 'norm1', 1e-12)
    c.scalar(m.norm2(), n2, 'norm2', 1e-12)
    c.scalar(m.norm2_squared(), n2 * n2, 'norm2_squared', 1e-11)


@op
def normalized(c):
    a, m = operand(c, ('normal', 'positive', 'negative', 'offset', 'uniform'), nan=0)
    if a.shape[0] > 2 and c.chance(0.3):
        a[c.int(0, a.shape[0] - 1)] *= 1e3
        m = gen.mat(c, a)
    c.sig('normalized', a)
    cols = np.array([math.sqrt(math.fsum(a[:, j] ** 2)) for j in range(a.shape[1])])
    rows = np.array([math.sqrt(math.fsum(a[i] ** 2)) for i in range(a.shape[0])])
    c.elem(m.normalized(), a / cols[None, :], 'normalized()', 1e-11)
    c.elem(m.normalized(0), a / cols[None, :], 'normalized(0)', 1e-11)
    c.elem(m.normalized(1), a / rows[:, None], 'normalized(1)', 1e-11)


@op
def max_median(c):
    a, m = operand(c, nan=0)
    c.sig('max', a)
    flat = sorted(a.ravel())
    k = len(flat)
    med = flat[k // 2] if k % 2 else flat[k // 2 - 1] / 2 + flat[k // 2] / 2
    c.scalar(m.max(), flat[-1], 'max', 0)
    c.scalar(m.median(), med, 'median', 1e-12, np.abs(a).max())


@op
def shape_predicates(c):
    a, m = operand(c)
    b, k = operand(c)
    n, p = a.shape
    c.sig('predicates', a.shape, b.shape, a)
    for name, got, want in (('is_vector', m.is_vector(), n == 1 or p == 1),
                            ('is_row_vector', m.is_row_vector(), n == 1),
                            ('is_column_vector', m.is_column_vector(), p == 1),
                            ('is_square', m.is_square(), n == p),
                            ('num_rows', m.num_rows(), n), ('num_columns', m.num_columns(), p),
                            ('num_elements', m.num_elements(), n * p),
                            ('same_shape_as', m.same_shape_as(k), a.shape == b.shape),
                            ('is_multiplicable_with', m.is_multiplicable_with(k), p == b.shape[0]),
                            ('shape_string', m.shape_string(), f'[{n} x {p}]'),
                            ('helper.dim', helper.dim(m), f'{n} x {p}')):
        c.ok(got == want, f'{name} of {a.shape} (and {b.shape}): {got!r}, expected {want!r}')
    if min(b.shape) != 1:
        c.ok(not m.vector_size_matches(k), 'vector_size_matches of a non-vector')
    elif b.size > 1 and 1 not in (n, p):
        want = p == b.shape[1] if b.shape[0] == 1 else n == b.shape[0]
        c.ok(bool(m.vector_size_matches(k)) == want, f'vector_size_matches {a.shape} {b.shape}')


@op
def value_predicates(c):
    a, m = operand(c, nan=0.6)
    c.sig('nan', a)
    has = bool(np.isnan(a).any())
    c.ok(bool(m.contains_NaN()) == has, f'contains_NaN of {a}: {m.contains_NaN()}, expected {has}')
    t = float(np.nanmedian(a)) if not np.isnan(a).all() else 0.0
    pred = c.pick([lambda x: x > t, lambda x: x >= t, lambda x: x == t, lambda x: x < t, lambda x: True,
                   lambda x: False, lambda x: x != x])
    cells = [(i, j) for i in range(a.shape[0]) for j in range(a.shape[1]) if pred(a[i, j])]
    c.ok([tuple(int(k) for k in ij) for ij in m.which(pred)] == cells, 'which')
    c.ok(bool(m.any(pred)) == bool(cells), 'any')
    c.ok(bool(m.all(pred)) == (len(cells) == a.size), 'all')
    v = a.reshape(1, -1) if c.chance(0.5) else a.reshape(-1, 1)
    want = [i for i in range(v.size) if pred(v.ravel()[i])]
    c.ok([int(i) for i in gen.mat(c, v).where_vector(pred)] == want, 'where_vector')


@op
def equality(c):
    a, m = operand(c, nan=0)
    if c.chance(0.25):
        a[c.int(0, a.shape[0] - 1), c.int(0, a.shape[1] - 1)] = c.pick([np.inf, -np.inf])
        m = gen.mat(c, a)
    k = gen.mat(c, a)
    c.sig('eq', a)
    c.ok((m == m) is True or bool(m == m), 'equal to itself')
    c.ok(bool(m == k) and not (m != k), 'equal contents compare equal')
    b = a.copy()
    i, j = c.int(0, a.shape[0] - 1), c.int(0, a.shape[1] - 1)
    if np.isinf(b[i, j]):
        b[i, j] = -b[i, j] if c.chance(0.5) else 1.0
    else:
        b[i, j] = c.pick([np.nextafter(b[i, j], np.inf), -b[i, j] if b[i, j] else 1.0, b[i, j] + 1 + abs(b[i, j]),
                          np.nan])
    k = gen.mat(c, b)
    c.ok(not (m == k) and (m != k), f'unequal cell {a[i, j]!r} / {b[i, j]!r} must not compare equal')
    c.ok(not helper.equal(m, k), 'helper.equal on unequal matrices')
    other = gen.mat(c, a.T if a.shape[0] != a.shape[1] else a[:, :1] if a.shape[1] > 1 else np.vstack([a, a]))
    c.ok(not (m == other), f'different shapes {a.shape} / {other.shape_string()} must not compare equal')
    c.ok(not helper.equal(m, other), 'helper.equal on different shapes')
    c.ok(not (m == None) and not (m == 'x') and not (m == a.tolist()), 'comparison with another type')  # noqa


@op
def equality_broadcastable(c):
    """Shapes numpy would broadcast: a constant matrix against its single cell, row or column."""
    n, p = c.int(2, 6), c.int(2, 6)
    v = c.pick([0.0, 1.0, -2.5])
    m = gen.mat(c, np.full((n, p), v))
    for s in ((1, 1), (1, p), (n, 1)):
        k = gen.mat(c, np.full(s, v))
        c.sig('eqb', n, p, v, s)
        c.ok(not (m == k) and not (k == m), f'{n}x{p} equal to {s}')
        c.ok(not helper.equal(m, k, 1.0), 'helper.equal across shapes')


@op
def equal_epsilon(c):
    a, m = operand(c, ('normal', 'ints', 'unit', 'halves'), nan=0)
    eps = c.pick([0.0, 1e-9, 1e-3, 0.5])
    i, j = c.int(0, a.shape[0] - 1), c.int(0, a.shape[1] - 1)
    b = a.copy()
    b[i, j] += c.pick([-1, 1]) * eps * 0.4
    c.sig('equal', a, eps, i, j)
    c.ok(bool(helper.equal(m, gen.mat(c, b), eps)), f'helper.equal within {eps}')
    b[i, j] = a[i, j] + c.pick([-1, 1]) * (eps * 2 + 1e-6)
    c.ok(not helper.equal(m, gen.mat(c, b), eps), f'helper.equal beyond {eps}')


@op
def sub_matrix(c):
    a, m = operand(c)
    n, p = a.shape

    def selection(k):
        if c.chance(0.5):
            lo = c.int(0, k)
            return (lo, c.int(lo, k)), None
        r = c.int(0, 3)
        if r == 0:
            return c.perm(k), None
        if r == 1:
            return [c.int(0, k - 1) for _ in range(c.int(1, k + 2))], None
        if r == 2:
            return sorted(set(c.int(0, k - 1) for _ in range(c.int(1, k)))), None
        return list(range(k)), None
    rows, cols = selection(n)[0], selection(p)[0]
    ri = list(range(*rows)) if isinstance(rows, tuple) else rows
    ci = list(range(*cols)) if isinstance(cols, tuple) else cols
    c.sig('sub', a, rows, cols)
    want = np.array([[a[i, j] for j in ci] for i in ri], dtype=float).reshape(len(ri), len(ci))
    c.same(m.get_sub_matrix(rows, cols), want, f'get_sub_matrix({rows}, {cols})')
    c.same(m.get_rows(rows), a[ri] if ri else np.zeros((0, p)), f'get_rows({rows})')
    c.same(m.get_columns(cols), a[:, ci] if ci else np.zeros((n, 0)), f'get_columns({cols})')


@op
def rows_columns(c):
    a, m = operand(c)
    n, p = a.shape
    i, j = c.int(0, n - 1), c.int(0, p - 1)
    c.sig('rc', a, i, j)
    c.same(m.get_row(i), a[i:i + 1], 'get_row')
    c.same(m.get_column(j), a[:, j:j + 1], 'get_column')
    c.same(helper.row_as_vector(m, i), a[i:i + 1], 'row_as_vector')
    c.same(helper.column_as_vector(m, j), a[:, j:j + 1], 'column_as_vector')
    x = m.get(i, j)
    c.ok(x == a[i, j] or (x != x and a[i, j] != a[i, j]), 'get')
    k = c.int(1, n + 3)
    c.same(m.head(k), a[:k], f'head({k})')
    c.same(m.head(), a[:5], 'head()')
    c.same(m.copy(), a, 'copy')
    d = [a[q, q] for q in range(min(n, p))]
    c.same(m.diag(), np.array(d)[:, None], 'diag')
    if not np.isnan(d).any() and not np.isinf(d).any():
        c.scalar(m.trace(), math.fsum(d), 'trace', 1e-12, np.abs(d).sum())


@op
def vectors(c):
    n = gen.dim(c)
    a = gen.values(c, 1, n)
    if c.chance(0.5):
        a = a.T
    m = gen.mat(c, a)
    c.sig('vec', a)
    for i in range(n):
        c.ok(m.get_from_vector(i) == a.ravel()[i], 'get_from_vector')
    c.same(m.vector_to_diagonal(), np.diag(a.ravel()), 'vector_to_diagonal')
    if n == 1:
        c.scalar(m.as_real(), a[0, 0], 'as_real', 0)


@op
def stacking(c):
    a, m = operand(c)
    n, p = a.shape
    b, k = operand(c, n=gen.dim(c, False), p=p)
    d, q = operand(c, n=n, p=gen.dim(c, False))
    c.sig('concat', a, b, d)
    c.same(m.concat_along_rows(k), np.vstack([a, b]), 'concat_along_rows')
    c.same(m.concat(k, 0), np.vstack([a, b]), 'concat 0')
    c.same(m.concat_along_columns(q), np.hstack([a, d]), 'concat_along_columns')
    c.same(m.concat(q, 1), np.hstack([a, d]), 'concat 1')
    c.same(helper.multi_concat(0, m, k, m), np.vstack([a, b, a]), 'multi_concat 0')
    c.same(helper.multi_concat(1, m, q, q), np.hstack([a, d, d]), 'multi_concat 1')
    c.same(helper.multi_concat(c.int(0, 1), m), a, 'multi_concat of one')


@op
def raw_copies(c):
    a, m = operand(c)
    c.sig('raw', a)
    one, two = m.to_raw_copy_1D(), m.to_raw_copy_2D()
    c.ok(isinstance(one, list) and isinstance(two, list) and all(isinstance(r, list) for r in two), 'plain lists')
    c.same(np.array(one, dtype=float).reshape(1, -1), a.T.reshape(1, -1), 'to_raw_copy_1D (column by column)')
    c.same(np.array(two, dtype=float).reshape(a.shape), a, 'to_raw_copy_2D')
    c.ok(len(two) == a.shape[0], 'to_raw_copy_2D rows')


@op
def text(c):
    a, m = operand(c)
    c.sig('str', a)
    for s in (str(m), '\n'.join(m.row_str(i) for i in range(a.shape[0]))):
        cells = [[float(x) for x in line.split(',')] for line in s.split('\n')]
        c.ok(all(len(r) == a.shape[1] for r in cells) and len(cells) == a.shape[0], 'text layout')
        c.same(np.array(cells), a, 'values in the text form')


@op
def assignment(c):
    a, m = operand(c)
    n, p = a.shape
    e = a.copy()
    log = []
    for _ in range(c.int(1, 6)):
        w = c.int(0, 4)
        if w == 0:
            i, j, x = c.int(0, n - 1), c.int(0, p - 1), number(c)
            m.set(i, j, x)
            e[i, j] = x
            log.append(('set', i, j, x))
        elif w == 1:
            i = c.int(0, n - 1)
            k = c.pick([p, p, p, max(1, p - 1), p + 2, 1])
            v = gen.values(c, 1, k)
            if k == 1 and p > 1:
                pass
            m.set_row(i, gen.mat(c, v if c.chance(0.5) else v.T))
            e[i, :min(k, p)] = v[0, :min(k, p)]
            log.append(('set_row', i, k))
        elif w == 2:
            j = c.int(0, p - 1)
            k = c.pick([n, n, n, max(1, n - 1), n + 2, 1])
            v = gen.values(c, k, 1)
            m.set_column(j, gen.mat(c, v if c.chance(0.5) else v.T))
            e[:min(k, n), j] = v[:min(k, n), 0]
            log.append(('set_column', j, k))
        elif w == 3:
            x = number(c)
            helper.fill_diagonal(m, x)
            for q in range(min(n, p)):
                e[q, q] = x
            log.append(('fill_diagonal', x))
        else:
            m.reset_cache()
        c.same(m, e, f'after {log}')
    c.sig('assign', a.shape, log)
    c.sample({'shape': a.shape, 'history': log})


# ---------------------------------------------------------------------------------------------- refusals
def other_shape(c, n, p, allow=()):
    """Shapes numpy might broadcast or truncate silently."""
    cand = [(1, 1), (1, p), (n, 1), (p, n), (n + 1, p), (n, p + 1), (max(1, n - 1), p), (n, max(1, p - 1)),
            (p, p), (n, n), (n * 2, p)]
    cand = [s for s in cand if s != (n, p) and s not in allow]
    return c.pick(cand)


@bad
def elementwise_shapes(c):
    a, m = operand(c, nan=0, big=False)
    s = other_shape(c, *a.shape)
    b, k = operand(c, nan=0, n=s[0], p=s[1])
    name = c.pick(['add', 'sub', 'mul_elementwise', 'div_elementwise'])
    c.sig(name, a.shape, s, a)
    c.refused(lambda: getattr(m, name)(k), f'{name} of {a.shape} and {s}')
    c.same(m, a, 'receiver after a refusal')


@bad
def product_shapes(c):
    a, m = operand(c, nan=0, big=False)
    s = c.pick([x for x in [(1, 1), (1, a.shape[1]), (a.shape[1] + 1, 3), (a.shape[0], a.shape[1]),
                            (max(1, a.shape[1] - 1), 2)] if x[0] != a.shape[1]] or [(a.shape[1] + 1, 1)])
    k = gen.mat(c, gen.values(c, *s))
    c.sig('mul', a.shape, s, a)
    c.ok(not m.is_multiplicable_with(k), 'is_multiplicable_with')
    c.refused(lambda: m.mul(k), f'mul of {a.shape} and {s}')


@bad
def vector_shapes(c):
    n, p = c.int(2, 9), c.int(2, 9)
    a = gen.values(c, n, p)
    m = gen.mat(c, a)
    s = c.pick([(1, p + 1), (1, p - 1), (n + 1, 1), (n - 1, 1), (n, p), (2, 2), (1, 1)]
               + ([(1, n), (p, 1)] if n != p else []))
    k = gen.mat(c, gen.values(c, *s))
    name = c.pick(['add_by_vector', 'sub_by_vector', 'mul_by_vector', 'add_by_vector_modify', 'sub_by_vector_modify',
                   'mul_by_vector_modify', 'div_by_vector_modify'])
    c.sig(name, n, p, s)
    c.refused(lambda: getattr(m, name)(k), f'{name} of {(n, p)} and {s}')
    c.same(m, a, 'receiver after a refusal')


@bad
def scale_shapes(c):
    n, p = c.int(2, 9), c.int(2, 9)
    m = gen.mat(c, gen.values(c, n, p))
    if c.chance(0.5):
        s = c.pick([(1, p), (p + 1, 1), (p - 1, 1), (1, 1), (n, p)] + ([(n, 1)] if n != p else []))
        name = 'scale_by_row_vector'
    else:
        s = c.pick([(1, n), (n + 1, 1), (n - 1, 1), (1, 1), (n, p)] + ([(p, 1)] if n != p else []))
        name = 'scale_by_column_vector'
    k = gen.mat(c, gen.values(c, *s))
    c.sig(name, n, p, s)
    c.refused(lambda: getattr(m, name)(k), f'{name} of {(n, p)} and {s}')


@bad
def dot_shapes(c):
    n = c.int(2, 8)
    x = gen.mat(c, gen.values(c, 1, n))
    s = c.pick([(1, n + 1), (n - 1, 1), (1, 1), (2, n), (n, 2)])
    y = gen.mat(c, gen.values(c, *s))
    c.sig('dot', n, s)
    c.refused(lambda: x.vector_dot(y), f'vector_dot {n} {s}')
    c.refused(lambda: y.vector_dot(x), f'vector_dot {s} {n}')


@bad
def concat_shapes(c):
    n, p = c.int(1, 7), c.int(1, 7)
    m = gen.mat(c, gen.values(c, n, p))
    k = gen.mat(c, gen.values(c, c.pick([n, 1, n + 1]), p + c.int(1, 2)))
    q = gen.mat(c, gen.values(c, n + c.int(1, 2), c.pick([p, 1, p + 1])))
    c.sig('concat', n, p, k.shape_string(), q.shape_string())
    c.refused(lambda: m.concat_along_rows(k), 'concat_along_rows')
    c.refused(lambda: m.concat_along_columns(q), 'concat_along_columns')
    c.refused(lambda: helper.multi_concat(0, m, k), 'multi_concat 0')
    c.refused(lambda: helper.multi_concat(1, m, m, q), 'multi_concat 1')


@bad
def misc_refusals(c):
    n, p = c.int(2, 7), c.int(2, 7)
    a = gen.values(c, n, p)
    m = gen.mat(c, a)
    sq = gen.mat(c, gen.values(c, 2, 3))
    w = c.int(0, 14)
    c.sig('misc', w, n, p, a)
    table = [lambda: m.as_real(), lambda: m.get_from_vector(0), lambda: m.vector_to_diagonal(),
             lambda: m.where_vector(lambda x: True), lambda: m.set_row(0, sq), lambda: m.set_column(0, sq),
             lambda: m.get_sub_matrix([0, n], [0]), lambda: m.get_sub_matrix([0], [p]), lambda: m.get_row(n),
             lambda: m.get_column(p), lambda: m.clip(2, 1), lambda: m.sum(c.pick([2, -2, 5])),
             lambda: m.mean(c.pick([2, -2, 5])), lambda: m.set(n, 0, 1.0), lambda: Matrix(np.zeros((2, 2, 2)))]
    c.refused(table[w], f'refusal #{w}')
    c.same(m, a, 'receiver after a refusal')


def run_op(c):
    f = OPS[c.index % len(OPS)]
    c.ev(f.__name__)
    f(c)


def run_bad(c):
    f = BAD[c.index % len(BAD)]
    c.ev('refusal:' + f.__name__)
    f(c)


def sequences(c):
    """Longer histories: results feed further operations, everything mirrored in numpy."""
    a, m = operand(c, ('normal', 'uniform', 'ints', 'halves', 'dup'), nan=0, big=False)
    log = []
    for _ in range(c.int(3, 12)):
        n, p = a.shape
        w = c.int(0, 11)
        if w == 0:
            a, m = a.T.copy(), m.transpose()
        elif w == 1:
            b = gen.values(c, n, p, 'normal')
            a, m = a + b, m.add(gen.mat(c, b))
        elif w == 2:
            b = gen.values(c, p, c.int(1, 6), 'normal') / p
            a, m = a @ b, m.mul(gen.mat(c, b))
        elif w == 3:
            v = gen.values(c, 1, p, 'positive')
            if n == 1 and p == 1 or p > 1:
                m.mul_by_vector_modify(gen.mat(c, v))
                a = a * v
        elif w == 4:
            i = c.int(0, n - 1)
            v = gen.values(c, 1, p, 'normal')
            m.set_row(i, gen.mat(c, v))
            a = a.copy()
            a[i] = v
        elif w == 5:
            r = [c.int(0, n - 1) for _ in range(c.int(1, n + 1))]
            a, m = a[r], m.get_rows(r)
        elif w == 6:
            a, m = a - 0.5, m.sub(0.5)
        elif w == 7 and n * p < 400:
            a, m = np.vstack([a, a]), m.concat_along_rows(m)
        elif w == 8:
            a, m = np.abs(a), m.abs()
        elif w == 9:
            j = c.int(0, p - 1)
            v = gen.values(c, n, 1, 'normal')
            m.set_column(j, gen.mat(c, v))
            a = a.copy()
            a[:, j] = v[:, 0]
        elif w == 10 and p > 1:
            j = c.int(0, p - 1)
            m = helper.delete_col(m, j)
            a = np.delete(a, j, 1)
        elif w == 11:
            a, m = a * a, m.mul_elementwise(m)
            s = 1 + np.abs(a).max()
            a, m = a / s, m.div(s)
        log.append(w)
        c.close(m, a, f'after {log}', 1e-9, 1 + np.abs(a).max())
    c.sig('seq', a, log)
    c.sample({'ops': log, 'final shape': a.shape})


SCENARIOS = [('operation', run_op, 24000, 400000), ('refusal', run_bad, 8000, 100000),
             ('sequence', sequences, 3000, 60000)]
