"""C13: column filters and filter chains."""
import numpy as np

from wai.ma.core import Filter, MultiFilter
from wai.ma.core.matrix import Matrix
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import Log, PassThrough, RowNorm, SavitzkyGolay

from .. import gen, instr
from ..common import arr

RULE = ('matrices of 1-60 columns with all start/step values and sample counts up and down; chains of up to six filters, '
        'nested chains, chains re-used and edited, with a recording filter logging the order; distinct: different '
        '(filter parameters, data)')
ASSUMPTIONS = ['a start index beyond the last column may give an empty selection or an error']


def worker_init():
    instr.install()


worker_report = instr.report


def down(c):
    n, p = gen.rows(c, 1, 7, huge=3000), c.pick([1, 2, 3, c.int(4, 20), gen.rows(c, 20, 60, huge=2000)])
    a = gen.values(c, n, p)
    o = Downsample()
    start, step = c.int(0, p - 1), c.pick([1, 2, 3, c.int(1, 9), p, p + 1])
    if start or c.chance(0.5):
        o.start_index = start
    if step != 1 or c.chance(0.5):
        o.step = step
    c.sig('down', a, start, step)
    m = gen.mat(c, a)
    idx = []
    i = start
    while i < p:
        idx.append(i)
        i += step
    for _ in range(2):
        c.same(o.transform(m), a[:, idx], f'every {step}th column from {start} of {p}')
    if c.chance(0.2):  # nothing to pick
        o.start_index = p + c.int(0, 3)
        try:
            r = o.transform(m)
        except Exception:
            c.ev('start beyond the columns refused')
        else:
            c.ok(r.num_columns() == 0, f'{r.num_columns()} columns from {o.start_index} of {p}')
            c.ev('start beyond the columns')
        o.start_index = start
    o.step = 1
    c.same(o.transform(m), a[:, start:], 'after changing the step')
    if m.data.dtype == float:
        b = gen.edited(c, a) if np.isfinite(a).all() and np.abs(a).max() < 1e100 else a * 0 + 1
        gen.rewrite(c, m, b)
        c.same(o.transform(m), b[:, start:], 'after changing the matrix')
    c.sample({'start': start, 'step': step, 'columns': p})


def resample(a, k):
    p = a.shape[1]
    if p == 1:
        return np.repeat(a, k, axis=1)
    pos = np.arange(k) * (p - 1) / (k - 1)
    return np.stack([np.interp(pos, np.arange(p), r) for r in a])


def equi(c):
    n, p = gen.rows(c, 1, 6, huge=3000), c.pick([1, 2, 3, c.int(4, 20), gen.rows(c, 20, 60, huge=2000)])
    a = gen.values(c, n, p, c.pick(['normal', 'uniform', 'ints', 'offset', 'sparse', 'sorted', 'mixed']))
    k = c.pick([2, 3, p, p + 1, max(2, p - 1), 2 * p, 2 * p - 1, c.int(2, 80), gen.rows(c, 2, 80, huge=2500)])
    k = max(k, 2)
    o = Equidistance(k)
    c.sig('equi', a, k)
    m = gen.mat(c, a)
    d = c.shape(o.transform(m), n, k, f'{p} columns resampled to {k}')
    want = resample(a, k)
    mag = np.abs(a).max(1, keepdims=True) + 1e-300
    c.ok(bool(np.all(np.abs(d - want) <= 1e-10 * mag)), f'{p}->{k}: {d.tolist()!r:.300} expected {want.tolist()!r:.300}')
    c.ok(bool(np.all(d[:, 0] == a[:, 0])) and bool(np.all(d[:, -1] == a[:, -1])), f'{p}->{k}: ends not kept')
    if k == p:
        c.ok(bool(np.all(d == a)), 'same count is not the identity')
    if p > 1 and (k - 1) % (p - 1) == 0:  # original columns lie on the new grid
        s = (k - 1) // (p - 1)
        c.ok(bool(np.all(d[:, ::s] == a)), f'{p}->{k}: columns on the grid changed')
    bad = c.pick([1, 0, -3])
    c.refused(lambda: setattr(o, 'num_samples', bad), f'num_samples = {bad}')
    c.refused(lambda: Equidistance(bad), f'Equidistance({bad})')
    c.ok(o.num_samples == k, 'sample count changed by a refused value')
    k2 = c.int(2, 12)
    o.num_samples = k2
    c.ok(bool(np.all(np.abs(arr(o.transform(m)) - resample(a, k2)) <= 1e-10 * mag)), 'after changing the count')
    if m.data.dtype == float and np.abs(a).max() < 1e100:
        b = gen.edited(c, a)
        gen.rewrite(c, m, b)
        c.ok(bool(np.all(np.abs(arr(o.transform(m)) - resample(b, k2)) <= 1e-10 * (np.abs(b).max(1, keepdims=True) + 1e-300))),
             'after changing the matrix')
    c.sample({'columns': p, 'samples': k})


class Affine(Filter):
    """A recording filter: order of application shows in the values and in the log."""

    def __init__(self, tag, k, b, log):
        self.tag, self.k, self.b, self.log = tag, k, b, log

    def transform(self, predictors):
        self.log.append(self.tag)
        return Matrix(predictors.data * self.k + self.b)


def step(c, tag, log):
    """(filter, function on arrays, needs)"""
    r = c.int(0, 6)
    if r <= 1:
        k, b = c.pick([2.0, -1.0, 0.5]), c.pick([0.0, 1.0, -3.0])
        return Affine(tag, k, b, log), lambda a: a * k + b
    if r == 2:
        o = Downsample()
        o.start_index, o.step = c.int(0, 1), c.int(1, 3)
        s, t = o.start_index, o.step
        return o, lambda a: a[:, s::t] if a.shape[1] > s else None
    if r == 3:
        k = c.int(2, 9)
        return Equidistance(k), lambda a: resample(a, k)
    if r == 4:
        return PassThrough(), lambda a: a
    if r == 5:
        def norm(a):  # rows without spread are judged under C09
            if a.shape[1] < 2 or a.std(1).min() < 1e-3:
                return None
            return (a - a.mean(1, keepdims=True)) / a.std(1, ddof=1, keepdims=True)
        return RowNorm(), norm
    inner = [step(c, (tag, i), log) for i in range(c.int(0, 2))]

    def run(a):
        for _, f in inner:
            if a is None:
                return None
            a = f(a)
        return a
    return MultiFilter([x for x, _ in inner]), run


def chain(c):
    n, p = c.int(1, 5), c.int(3, 16)
    a = c.rng.normal(size=(n, p)) * 2
    log = []
    steps = [step(c, i, log) for i in range(c.int(0, 6))]
    twice = bool(steps) and c.chance(0.3)
    if twice:  # one filter object in several places of the chain
        for _ in range(c.int(1, 2)):
            steps.insert(c.int(0, len(steps)), c.pick(steps))
        c.ev('filter used twice')
    want = a
    for o, f in steps:
        if want is None:
            return
        want = f(want)
        if want is None or not np.isfinite(want).all() or np.abs(want).max() > 1e4:
            return
    o = MultiFilter([s for s, _ in steps])
    c.sig('chain', a, [type(s).__name__ for s, _ in steps])
    c.ev(f'chain of {len(steps)}')
    m = gen.mat(c, a)
    orders = []
    for _ in range(2):
        log.clear()
        c.close(o.transform(m), want, f'chain {[type(s).__name__ for s, _ in steps]}', 1e-6, max(np.abs(want).max(), 1.0))
        orders.append(list(log))

    def top(t):
        return t if isinstance(t, int) else top(t[0])
    flat = [top(t) for t in orders[0]]
    c.ok((twice or flat == sorted(flat)) and orders[0] == orders[1], f'filters applied in the order {orders[0]}')
    c.same(m, a, 'the matrix')
    c.sample({'chain': [type(s).__name__ for s, _ in steps], 'order': orders[0]})


def rows(c):
    """Every row processed on its own."""
    n, p = c.int(2, 8), c.int(2, 20)
    a = gen.values(c, n, p, 'normal')
    o = c.pick([lambda: Equidistance(c.int(2, 25)), Downsample])()
    if isinstance(o, Downsample):
        o.step = c.int(1, 4)
    c.sig('rows', a, type(o).__name__)
    full = arr(o.transform(gen.mat(c, a)))
    idx = [c.int(0, n - 1) for _ in range(c.int(1, 6))]
    c.same(o.transform(gen.mat(c, a[idx])), full[idx], 'rows in another order')


SCENARIOS = [('down', down, 1500, 20000), ('equi', equi, 2500, 50000), ('chain', chain, 2500, 40000), ('rows', rows, 800, 8000)]
