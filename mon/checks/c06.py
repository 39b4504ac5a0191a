"""C06: constructors, statistics and number helpers against their definitions; the process-wide random state watched."""
import fractions
import math
import random
from decimal import Decimal

import numpy as np
import scipy.stats

from wai.ma.core import utils
from wai.ma.core.matrix import Matrix, factory, helper

from .. import gen, instr
from ..common import arr

RULE = ('random arguments for every constructor, statistic and helper; the global numpy and python random states are '
        'compared before/after and scrambled between repeated calls; distinct: different (function, arguments)')
ASSUMPTIONS = ['statistics are judged to 1e-12 of the data magnitude plus 1e-9 relative',
               'the distribution of random constructors is judged by a Kolmogorov-Smirnov test at p > 1e-9']


def worker_init():
    instr.install(rng=True)


worker_report = instr.report


def construct(c):
    n, p = gen.rows(c, 1, 9, 600, 4000), gen.rows(c, 1, 9)
    w = c.pick(['create', 'create', 'eye', 'zeros', 'filled', 'row', 'column', 'diag', 'range', 'spectrum', 'like',
                'refuse'])
    a = gen.values(c, n, p)
    c.ev('construct:' + w)
    c.sig(w, n, p, a)
    if w == 'create':
        k = c.int(0, 4)
        f = c.pick([factory.create, factory.from_raw])
        if k == 0:
            src = a.copy()
        elif k == 1:
            src = a.tolist()
        elif k == 2:
            a = np.round(np.clip(a, -1e6, 1e6))
            src = a.astype(int).tolist()
        elif k == 3:
            src = np.array(a, order='F')
        else:
            a = np.round(np.clip(a, -1e6, 1e6))
            src = a.astype(np.int32)
        m = f(src)
        c.same(m, a, 'create')
        c.ok(arr(m).dtype == np.float64, 'create: not 64-bit floats')
        if isinstance(src, np.ndarray):
            src[...] = 55
            c.same(m, a, 'create after the source changed')
        elif src:
            src[0][0] = 55
            c.same(m, a, 'create after the source changed')
    elif w == 'eye':
        c.same(factory.eye(n), np.eye(n), 'eye')
        c.same(factory.eye(n, p), np.eye(n, p), 'eye rectangular')
    elif w == 'zeros':
        c.same(factory.zeros(n), np.zeros((n, n)), 'zeros')
        c.same(factory.zeros(n, p), np.zeros((n, p)), 'zeros')
    elif w == 'filled':
        v = c.pick([0, 1, -3, 2.5, 1e300, float('nan'), 7])
        c.same(factory.filled(n, p, v), np.full((n, p), float(v)), 'filled')
    elif w == 'row':
        v = a[0].tolist()
        c.same(factory.from_row(v), a[:1], 'from_row')
    elif w == 'column':
        v = a[:, 0].tolist()
        c.same(factory.from_column(v), a[:, :1], 'from_column')
    elif w == 'diag':
        c.same(factory.diag(gen.mat(c, a[:, :1])), np.diag(a[:, 0]), 'diag')
    elif w == 'range':
        s = c.int(-20, 20)
        c.same(factory.range(n, p, s), np.arange(s, s + n * p, dtype=float).reshape(n, p), 'range')
    elif w == 'spectrum':
        x, y = a[:, 0].tolist(), c.rng.normal(size=n).tolist()
        c.same(factory.create_spectrum(x, y), np.column_stack([x, y]), 'create_spectrum')
        c.refused(lambda: factory.create_spectrum(x, y + [1.0]), 'spectrum of unequal lengths')
    elif w == 'like':
        m = gen.mat(c, a)
        c.same(factory.eye_like(m), np.eye(n, p), 'eye_like')
        c.same(factory.zeros_like(m), np.zeros((n, p)), 'zeros_like')
        c.same(factory.filled_like(m, 3), np.full((n, p), 3.0), 'filled_like')
        c.same(factory.rand_like(m, 7), arr(factory.rand(n, p, 7)), 'rand_like')
        c.same(factory.randn_like(m, 7), arr(factory.randn(n, p, 7)), 'randn_like')
        c.same(factory.randn_like(m, 7, 2.0, 3.0), arr(factory.randn(n, p, 7, 2.0, 3.0)), 'randn_like')
        c.same(m, a, 'the model matrix')
    else:
        if n == 1 or p == 1:
            return
        bad = a.tolist()
        bad[-1] = bad[-1][:-1]
        c.refused(lambda: factory.create(bad), 'ragged list')
        bad = a.tolist()
        bad[0][0] = 'x'
        c.refused(lambda: factory.create(bad), 'text cell')


def shake(c):
    np.random.seed(c.int(0, 2 ** 31))
    np.random.rand(c.int(0, 5))
    random.seed(c.int(0, 2 ** 31))


def global_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2], random.getstate()


def draws(c):
    big = c.chance(0.15)
    n, p = (c.int(30, 60), c.int(30, 60)) if big else (c.int(1, 9), c.int(1, 9))
    seed = c.pick([1, 0, 5, 42, c.int(0, 2 ** 32 - 1)])
    normal = c.chance(0.5)
    mean, std = c.pick([0.0, 3.0, -10.0]), c.pick([1.0, 0.2, 5.0])
    if normal:
        f = [lambda: factory.randn(n, p, seed, mean, std)]
        if (mean, std) == (0.0, 1.0):
            f.append(lambda: factory.randn(n, p, seed))
    else:
        f = [lambda: factory.rand(n, p, seed)]
        if seed == 1:
            f.append(lambda: factory.rand(n, p))
    c.sig('draws', n, p, seed, normal, mean, std)
    got = []
    for _ in range(3):
        shake(c)
        before = global_state()
        d = c.shape(c.pick(f)(), n, p, 'random constructor')
        c.ok(global_state() == before, 'a seeded random constructor disturbed the process-wide random state')
        got.append(d.copy())
        d[...] = 0
    c.ok(all(np.array_equal(g, got[0]) for g in got), 'a seeded random constructor is not a function of its arguments')
    other = arr(factory.randn(n, p, (seed + 1) % 2 ** 32, mean, std) if normal else factory.rand(n, p, (seed + 1) % 2 ** 32))
    c.ok(not np.array_equal(other, got[0]), 'another seed gives the same numbers')
    x = got[0]
    if normal:
        if np.array_equal(x, np.random.RandomState(seed).rand(n, p)):
            c.known('KF9', f'randn({n}, {p}, {seed}, {mean}, {std})')
            return
        x = (x - mean) / std
        dist = 'norm'
    else:
        c.ok(bool(np.all((x >= 0) & (x < 1))), 'rand outside [0, 1)')
        dist = 'uniform'
    if big:
        c.ev('distribution test')
        c.ok(scipy.stats.kstest(x.ravel(), dist).pvalue > 1e-9, f'not a {dist} sample')
        c.ok(scipy.stats.kstest(x[0], dist).pvalue > 1e-9 and scipy.stats.kstest(x[:, 0], dist).pvalue > 1e-9, 'row/column')
    c.sample({'seed': seed, 'shape': (n, p), 'normal': normal})


def stats(c):
    n, p = gen.shape(c)
    a = gen.values(c, n, p)
    m = gen.mat(c, a)
    c.sig('stats', a)
    mag = np.abs(a).max()
    c.close(helper.column_means(m), a.mean(0), 'column_means', 1e-12, mag)
    c.close(helper.row_means(m), a.mean(1).reshape(-1, 1), 'row_means', 1e-12, mag)
    i, j = c.int(0, n - 1), c.int(0, p - 1)
    cm, rm = math.fsum(a[:, j]) / n, math.fsum(a[i]) / p
    c.scalar(helper.column_mean(m, j), cm, 'column_mean', 1e-12, mag)
    c.scalar(helper.row_mean(m, i), rm, 'row_mean', 1e-12, mag)
    c.scalar(helper.mean(m, j), cm, 'mean', 1e-12, mag)
    c.scalar(helper.mean(m, j, True), cm, 'mean', 1e-12, mag)
    c.scalar(helper.mean(m, i, False), rm, 'mean of a row', 1e-12, mag)
    if n > 1:
        s = np.sqrt(((a - a.mean(0)) ** 2).sum(0) / (n - 1))
        c.close(helper.column_stdevs(m), s, 'column_stdevs', 1e-9, max(s.max(), 1e-3 * mag))
        c.scalar(helper.column_stdev(m, j), s[j], 'column_stdev', 1e-9, max(s[j], 1e-3 * mag))
        c.scalar(helper.stdev(m, j), s[j], 'stdev', 1e-9, max(s[j], 1e-3 * mag))
    if p > 1:
        s = np.sqrt(((a.T - a.mean(1)) ** 2).sum(0) / (p - 1))
        c.close(helper.row_stdevs(m), s.reshape(-1, 1), 'row_stdevs', 1e-9, max(s.max(), 1e-3 * mag))
        c.scalar(helper.row_stdev(m, i), s[i], 'row_stdev', 1e-9, max(s[i], 1e-3 * mag))
        c.scalar(helper.stdev(m, i, False), s[i], 'stdev of a row', 1e-9, max(s[i], 1e-3 * mag))
    c.refused(lambda: helper.column_mean(m, p), 'mean of a missing column')
    c.refused(lambda: helper.row_mean(m, n), 'mean of a missing row')
    c.ok(helper.dim(m) == f'{n} x {p}', 'dim')
    c.same(m, a, 'the matrix')


def delete(c):
    n, p = gen.rows(c, 1, 8, huge=3000), gen.rows(c, 2, 9)
    a, m = gen.matrix(c, n, p)
    cols = [c.int(0, p - 1) for _ in range(c.int(0, p - 1))]
    keep = [j for j in range(p) if j not in cols]
    c.sig('delete', a, cols)
    c.same(helper.delete_cols(m, cols), a[:, keep], f'delete_cols {cols}')
    j = c.int(0, p - 1)
    c.same(helper.delete_col(m, j), np.delete(a, j, 1), f'delete_col {j}')
    i = c.int(0, n - 1)
    c.same(helper.row_as_vector(m, i), a[i:i + 1], 'row_as_vector')
    c.same(helper.column_as_vector(m, j), a[:, j:j + 1], 'column_as_vector')
    c.same(m, a, 'the matrix')


def numbers(c, n, nan=True):
    k = c.int(0, 7)
    if k == 0:
        v = [c.int(-5, 5) for _ in range(n)]
    elif k == 1:
        v = [c.int(-10 ** 6, 10 ** 6) for _ in range(n)]
    elif k == 2:
        v = c.rng.normal(size=n).tolist()
    elif k == 3:
        v = (np.sort(c.rng.normal(size=n)) * c.pick([1, -1])).tolist()
    elif k == 4:
        v = [c.pick([0, 1.5, 2, -3.25, 2.0]) for _ in range(n)]
    elif k == 5:
        v = [float(c.int(0, 3))] * n
    elif k == 6:
        v = list(c.rng.normal(size=n) * 10.0 ** c.rng.integers(-300, 300, size=n))
    else:
        v = (np.abs(np.arange(n) - n // 2) * 1.0).tolist()
    if n and c.chance(0.35):
        for _ in range(c.int(1, 1 + n // 3)):
            v[c.int(0, n - 1)] = c.pick([float('inf'), float('-inf'), -0.0, 0] + ([float('nan')] * 3 if nan else []) +
                                        [np.finfo(float).max, 1e308])
    return v


def unfavourable(n):
    """A list on which quicksort with the median of first, middle and last splits off almost nothing each time: McIlroy's
    adversary, which decides the values while such a quicksort compares them."""
    val, state = [n] * n, [0, 0]

    def less(i, j):
        if val[i] == n and val[j] == n:
            k = i if i == state[1] else j
            val[k] = state[0]
            state[0] += 1
        if val[i] == n:
            state[1] = i
        elif val[j] == n:
            state[1] = j
        return val[i] < val[j]
    idx = list(range(n))

    def order(a, b):
        if less(idx[b], idx[a]):
            idx[a], idx[b] = idx[b], idx[a]
    todo = [(0, n - 1)]
    while todo:
        lo, hi = todo.pop()
        if hi - lo < 3:
            for a, b in ((lo, lo + 1), (lo, hi), (lo + 1, hi)) if hi - lo == 2 else ((lo, hi),) if hi > lo else ():
                order(a, b)
            continue
        mid = (lo + hi) // 2
        order(lo, mid)
        order(lo, hi)
        order(mid, hi)
        idx[mid], idx[hi - 1] = idx[hi - 1], idx[mid]
        pivot, a, b = idx[hi - 1], lo, hi - 1
        while True:
            a += 1
            while less(idx[a], pivot):
                a += 1
            b -= 1
            while less(pivot, idx[b]):
                b -= 1
            if a >= b:
                break
            idx[a], idx[b] = idx[b], idx[a]
        idx[a], idx[hi - 1] = idx[hi - 1], idx[a]
        todo += [(a + 1, hi), (lo, a - 1)]
    return val


def sorting(c):
    n = c.pick([0, 1, 2, 3, 4, 5, c.int(6, 12), c.int(6, 30), c.int(31, 400)])
    v = numbers(c, n)
    if c.index % 400 == 7:  # long lists, and those that are hard for the median of three
        n = c.int(2200, 3000)
        f = c.pick([1, 0.5, 1e-3])
        v = numbers(c, n) if c.chance(0.3) else [f * x for x in unfavourable(n)]
        c.ev('long list')
    keep = list(v)
    c.sig('sort', v)
    r = c.call(f'sort {v!r:.200}', utils.sort, v)
    c.ok(all(x is y for x, y in zip(v, keep)) and len(v) == n, 'sort changed its list')
    c.ok(sorted(int(i) for i in r) == list(range(n)), f'sort {v!r:.200}: {r!r:.200} is no permutation')
    key = [np.finfo(float).max if x != x else float(x) for x in v]
    c.ok(all(key[r[i]] <= key[r[i + 1]] for i in range(n - 1)), f'sort {v!r:.300}: {r!r:.300} is not ascending')


def parting(c):
    """One partition step of integers: the chosen part only, split around the middle element."""
    n = c.int(1, 40)
    v = [c.int(-3, 3) if c.chance(0.7) else c.int(-10 ** 6, 10 ** 6) for _ in range(n)]
    idx = c.perm(n)
    idx = [int(i) for i in idx]
    lo = c.int(0, n - 1)
    hi = c.int(lo, n - 1)
    was, keep = list(idx), list(v)
    c.sig('partition', v, idx, lo, hi)
    if not hasattr(utils, 'partition'):  # a helper of sort
        return
    k = c.call('partition', utils.partition, v, idx, lo, hi)
    what = f'partition of {keep} in the order {was} from {lo} to {hi}: {idx}, {k}'
    c.ok(v == keep, f'{what}: values changed')
    c.ok(sorted(idx) == sorted(was) and idx[:lo] == was[:lo] and idx[hi + 1:] == was[hi + 1:], what)
    c.ok(lo - 1 <= k <= hi, what)
    p = v[was[(lo + hi) // 2]]
    c.ok(all(v[i] <= p for i in idx[lo:k + 1]) and all(v[i] >= p for i in idx[k + 1:hi + 1]), what)


def maxima(c):
    n = c.pick([1, 2, 3, c.int(4, 30)])
    v = numbers(c, n, nan=False)
    if c.chance(0.3):
        v = [-abs(x) - 1 for x in v]
    c.sig('max', v)
    c.ok(utils.max_index(v) == v.index(max(v)), f'max_index {v!r:.200}: {utils.max_index(v)}')


def lines(c):
    n = gen.rows(c, 2, 20, huge=5000)
    x = c.rng.uniform(-5, 5, size=n) + c.pick([0, 0, 10])
    if np.ptp(x) < 1:
        x[0] += 3
    if c.chance(0.3):
        x = np.round(x)
        x[0], x[1] = -3, 4
    y = c.uni(-3, 3) * x + c.uni(-5, 5) + c.pick([0, 1]) * c.rng.normal(size=n)
    c.sig('line', x, y)
    a, b = utils.linear_regression(x.tolist(), y.tolist())
    xc = x - x.mean()
    slope = float((xc * (y - y.mean())).sum() / (xc ** 2).sum())
    s = np.abs(y).max() + 1e-9
    c.scalar(b, slope, 'slope', 1e-8, s + abs(slope))
    c.scalar(a, y.mean() - slope * x.mean(), 'intercept', 1e-8, s + abs(slope) * np.abs(x).max())
    v = c.rng.normal(size=gen.rows(c, 0, 15, huge=5000)) * c.pick([1, 1e5])
    c.scalar(utils.sum_of_squares(v.tolist()), float((v * v).sum()), 'sum_of_squares', 1e-12)
    w = numbers(c, c.int(0, 8))
    r = utils.to_real_array(w)
    c.ok(len(r) == len(w) and all(isinstance(t, float) and (t == float(u) or t != t and u != u) for t, u in zip(r, w)),
         'to_real_array')
    c.ok(list(utils.initial_index(n)) == list(range(n)), 'initial_index')
    e = c.uni(-20, 20)
    c.scalar(utils.exp(e), math.exp(e), 'exp', 1e-13)
    c.scalar(utils.sqrt(abs(e)), math.sqrt(abs(e)), 'sqrt', 1e-13)


def formatting(c):
    k = c.int(0, 5)
    if k == 0:
        v = c.pick([0.0, -0.0, 0.5, 1.5, 2.5, 0.125, -0.375, 1e22, 123456789.0, 1e-7, 5e-324, 1.7e308, 99.995, 1.005])
    elif k == 1:
        v = c.rng.normal() * 10.0 ** c.int(-12, 12)
    elif k == 2:
        v = c.int(-1000, 1000) / c.pick([1, 2, 4, 8, 10, 100])
    else:
        v = c.uni(-100, 100)
    v = np.float64(v)
    d = c.int(0, 30) if c.chance(0.3) else c.int(0, 12)
    c.sig('format', repr(v), d)
    s = utils.real_to_string_fixed(v, d)
    c.ok(isinstance(s, str), 'not text')
    body = s.split('.')
    c.ok(len(body[1] if len(body) > 1 else '') == d and 'e' not in s.lower(), f'{v!r} with {d} decimals: {s!r}')
    c.ok(abs(fractions.Fraction(Decimal(s)) - fractions.Fraction(float(v))) <= fractions.Fraction(1, 2 * 10 ** d),
         f'{v!r} with {d} decimals: {s!r}')
    c.ok(s.startswith('-') == bool(np.signbit(v)) or float(s) == 0, f'sign of {v!r}: {s!r}')
    c.ok(float(utils.real_to_string_fixed(v, -1)) == float(v), f'all decimals of {v!r}')
    for x, t in ((np.nan, 'nan'), (np.inf, 'inf'), (-np.inf, '-inf')):
        s = utils.real_to_string_fixed(np.float64(x), d)
        c.ok(str(float(s)) == t, f'{x}: {s!r}')


SCENARIOS = [('construct', construct, 3000, 40000), ('draws', draws, 1500, 20000), ('stats', stats, 2000, 30000),
             ('delete', delete, 800, 10000), ('sort', sorting, 6000, 150000), ('partition', parting, 1500, 20000), ('max', maxima, 1500, 20000),
             ('lines', lines, 1500, 20000), ('format', formatting, 3000, 50000)]
