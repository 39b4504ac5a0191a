"""C09: outputs of the scalers judged by the statistics they promise and by reference maps."""
import numpy as np
import scipy.optimize
import scipy.stats

from wai.ma.transformation import (Center, Log, PowerTransformer, QuantileTransformer, RobustScaler, RowNorm, Standardize)

from .. import gen, instr
from ..common import Skip, arr

RULE = ('data with constant columns in any position, offsets and scales from 1e-90 to 1e90, single rows and columns; every '
        'output is judged by its own statistics and by an independent computation of the map, on fitting and unseen '
        'data; distinct: different (transformation, parameters, data)')
ASSUMPTIONS = ['power transform parameters are compared with an independent likelihood maximisation to 1e-3 of the output '
               'scale', 'robust scaling: inter-quantile ranges below 1e-12 are outside the domain']


def worker_init():
    instr.install()


worker_report = instr.report


def columns(c, n, p, const=0.3, wide=False):
    """Columns of their own scale and offset, some constant."""
    x = np.empty((n, p))
    k = np.zeros(p, bool)
    for j in range(p):
        s = 10.0 ** (c.int(-90, 90) if wide and c.chance(0.3) else c.int(-6, 6))
        off = c.pick([0.0, 1.0, -30.0, 1000.0]) * s
        if c.chance(const):
            x[:, j] = c.pick([0.0, 1.0, -2.5, 0.1, 1 / 3, 1e5 / 3, -7e-9, 123456.789, 0.3 * s])
            k[j] = True
        else:
            r = c.int(0, 3)
            v = c.rng.normal(size=n) if r < 2 else c.rng.exponential(size=n) if r == 2 else \
                c.rng.integers(0, 4, size=n).astype(float)
            x[:, j] = v * s + off
            k[j] = bool(np.all(x[:, j] == x[0, j]))
    return x, k


def size(c):
    n = c.pick([1, 2, 3, c.int(4, 12), gen.rows(c, 13, 40, huge=3000), c.int(4, 12)])
    p = c.pick([1, 2, 3, c.int(4, 10), gen.rows(c, 4, 10, huge=1200)])
    return n, p


def fit(c, o, x):
    """(output on the fitting data, function for unseen data)"""
    if c.chance(0.5):
        o.configure(gen.mat(c, x))
    r = o.transform(gen.mat(c, x))
    return arr(r, type(o).__name__), lambda u: arr(o.transform(gen.mat(c, u)), type(o).__name__ + ' of unseen data')


def affine(c, x, k, mu, sd, out, f, what):
    """out = (x - mu) / sd column by column, and the same map on unseen rows."""
    n, p = x.shape
    c.ok(out.shape == x.shape, f'{what}: shape {out.shape}')
    c.ok(bool(np.isfinite(out).all()), f'{what}: not finite for {x.tolist()!r:.400}')
    for j in range(p):
        mag = np.abs(x[:, j]).max()
        t = 1e-9 + 1e-13 * n * mag / sd[j]
        c.ok(float(np.abs(out[:, j] - (x[:, j] - mu[j]) / sd[j]).max()) <= t * max(1.0, np.abs(out[:, j]).max()),
             f'{what}: column {j} is {out[:, j]} for {x[:, j].tolist()}')
    m = c.int(1, 5)
    u = mu + sd * c.rng.normal(size=(m, p)) * 4
    w = f(u)
    c.ok(w.shape == u.shape, f'{what}: unseen data shape {w.shape}')
    for j in range(p):
        want = (u[:, j] - mu[j]) / sd[j]
        t = 1e-9 * max(1.0, np.abs(want).max()) + 1e-13 * n * max(np.abs(x[:, j]).max(), np.abs(u[:, j]).max()) / sd[j]
        c.ok(float(np.abs(w[:, j] - want).max()) <= t, f'{what}: unseen column {j} {w[:, j]} expected {want}')


def center(c):
    x, k = columns(c, *size(c), wide=True)
    c.sig('center', x)
    out, f = fit(c, Center(), x)
    mu = x.mean(0)
    affine(c, x, k, mu, np.maximum(np.abs(x).max(0), 1e-300) * 0 + 1.0, out, f, 'Center')
    c.ok(bool(np.all(np.abs(out.mean(0)) <= 1e-12 * np.abs(x).max(0) + 1e-300)), 'Center: column means are not zero')


def standardize(c):
    x, k = columns(c, *size(c), wide=True)
    n = x.shape[0]
    c.sig('standardize', x)
    c.ev('constant columns', int(k.sum()))
    out, f = fit(c, Standardize(), x)
    mu = x.mean(0)
    sd = np.sqrt(((x - mu) ** 2).sum(0) / (n - 1)) if n > 1 else np.ones(x.shape[1])
    sd = np.where(k, 1.0, sd)
    affine(c, x, k, mu, sd, out, f, 'Standardize')
    for j in range(x.shape[1]):
        mag = np.abs(x[:, j]).max()
        if k[j]:
            c.ok(float(np.abs(out[:, j]).max()) <= 1e-12 * mag, f'Standardize: constant column {j} gives {out[:, j]}')
        else:
            t = 1e-9 + 1e-13 * n * mag / sd[j]
            c.ok(abs(out[:, j].mean()) <= t and abs(out[:, j].std(ddof=1) - 1) <= t,
                 f'Standardize: column {j} mean {out[:, j].mean()} deviation {out[:, j].std(ddof=1)}')


def rownorm(c):
    n, p = size(c)
    xt, k = columns(c, p, n, wide=True)
    x = xt.T.copy()
    c.sig('rownorm', x)
    o = RowNorm()
    for _ in range(2):
        out = arr(o.transform(gen.mat(c, x)), 'RowNorm')
        c.ok(out.shape == x.shape and bool(np.isfinite(out).all()), f'RowNorm: {out} for {x.tolist()!r:.300}')
        for i in range(n):
            mag = np.abs(x[i]).max()
            if k[i]:
                c.ok(float(np.abs(out[i]).max()) <= 1e-12 * mag, f'RowNorm: constant row {i} gives {out[i]}')
                continue
            sd = x[i].std(ddof=1)
            t = 1e-9 + 1e-13 * p * mag / sd
            c.ok(abs(out[i].mean()) <= t and abs(out[i].std(ddof=1) - 1) <= t, f'RowNorm: row {i}')
            c.ok(float(np.abs(out[i] - (x[i] - x[i].mean()) / sd).max()) <= t * max(1.0, np.abs(out[i]).max()), f'row {i}')
        if hasattr(o, 'get_means') and hasattr(o, 'get_std_devs'):
            ms, ss = arr(o.get_means()).ravel(), arr(o.get_std_devs()).ravel()
            c.ok(len(ms) == n and len(ss) == n, f'RowNorm tells {len(ms)} means of {n} rows')
            mag = np.abs(x).max(1)
            c.ok(bool((np.abs(ms - x.mean(1)) <= 1e-12 * mag).all()), 'RowNorm tells other means')
            for i in range(n):
                want = 1.0 if k[i] else x[i].std(ddof=1)
                c.ok(abs(ss[i] - want) <= 1e-9 * want + 1e-13 * p * mag[i], f'RowNorm tells another deviation of row {i}')
        xt, k = columns(c, p, n, wide=True)
        x = xt.T.copy()


def robust(c):
    n, p = size(c)
    x, k = columns(c, n, p)
    o = RobustScaler()
    lo, hi = c.pick([(25.0, 75.0), (10.0, 90.0), (5.0, 50.0), (40.0, 99.0), (1.0, 99.0)])
    cen, sca = c.chance(0.8), c.chance(0.8)
    if (lo, hi) != (25.0, 75.0) or c.chance(0.5):
        o.quantile_range = (lo, hi)
    if not cen or c.chance(0.3):
        o.with_centering = cen
    if not sca or c.chance(0.3):
        o.with_scaling = sca
    c.sig('robust', x, lo, hi, cen, sca)
    mu = np.median(x, axis=0) if cen else np.zeros(p)
    sd = np.ones(p)
    if sca:
        srt = np.sort(x, axis=0)
        q = []
        for perc in (lo, hi):
            h = (n - 1) * perc / 100
            i = int(np.floor(h))
            q.append(srt[i] + (h - i) * (srt[min(i + 1, n - 1)] - srt[i]))
        sd = q[1] - q[0]
        tiny = (sd < 1e-12) | (sd < 1e-13 * np.abs(x).max(0))
        if bool((tiny & ~k & (sd != 0)).any()):
            raise Skip()
        sd = np.where(tiny | k, 1.0, sd)
    out, f = fit(c, o, x)
    affine(c, x, k, mu, sd, out, f, f'RobustScaler({lo}, {hi}, {cen}, {sca})')
    if cen and k.any():
        c.ok(float(np.abs(out[:, k]).max()) <= 1e-12 * np.abs(x[:, k]).max() + 1e-300, 'RobustScaler: constant column')


def yj(x, lam):
    out = np.empty_like(x)
    pos = x >= 0
    out[pos] = np.log1p(x[pos]) if abs(lam) < 1e-12 else ((x[pos] + 1) ** lam - 1) / lam
    neg = ~pos
    out[neg] = -np.log1p(-x[neg]) if abs(lam - 2) < 1e-12 else -((1 - x[neg]) ** (2 - lam) - 1) / (2 - lam)
    return out


def bc(x, lam):
    return np.log(x) if abs(lam) < 1e-12 else (x ** lam - 1) / lam


def loglik(f, x, lam, box):
    t = f(x, lam)
    v = t.var()
    if not v > 0 or not np.isfinite(v):
        return -np.inf
    j = (lam - 1) * (np.log(x) if box else np.sign(x) * np.log1p(np.abs(x))).sum()
    return -len(x) / 2 * np.log(v) + j


def power(c):
    n, p = gen.rows(c, 12, 40), c.int(1, 4)
    box = c.chance(0.5)
    std = c.chance(0.6)
    x = np.exp(c.rng.normal(size=(n, p)) * 0.6) + 0.05
    if not box:
        x = x * c.pick([1, -1]) + c.pick([0.0, 0.0, 1.5])
        if c.chance(0.3):
            x = c.rng.normal(size=(n, p)) * 2
    o = PowerTransformer()
    if box or c.chance(0.5):
        o.method = 'box-cox' if box else 'yeo-johnson'
    if not std or c.chance(0.5):
        o.standardise = std
    c.sig('power', x, box, std)
    out, f = fit(c, o, x)
    c.ok(out.shape == x.shape, 'shape')
    fn = bc if box else yj
    u = np.clip(x[c.perm(n)[:3]] * 1.05, 0.02 if box else None, None)
    w = f(u)
    for j in range(p):
        grid = np.linspace(-5, 5, 81)
        ll = [loglik(fn, x[:, j], g, box) for g in grid]
        i = int(np.argmax(ll))
        if i in (0, 80):
            continue
        lam = scipy.optimize.minimize_scalar(lambda g: -loglik(fn, x[:, j], g, box), bounds=(grid[i - 1], grid[i + 1]),
                                             method='bounded', options=dict(xatol=1e-9)).x
        t = fn(x[:, j], lam)
        m, s = (t.mean(), t.std()) if std else (0.0, 1.0)
        want = (t - m) / s
        sc = max(np.abs(want).max(), 1e-9)
        c.ev('power column judged')
        c.ok(float(np.abs(out[:, j] - want).max()) <= 1e-3 * sc, f'power {box} {std}: column {j} {out[:3, j]} expected {want[:3]}')
        wu = (fn(u[:, j], lam) - m) / s
        c.ok(float(np.abs(w[:, j] - wu).max()) <= 2e-3 * max(np.abs(wu).max(), sc), f'power {box} {std}: unseen {w[:, j]} expected {wu}')
        if std:
            c.ok(abs(out[:, j].mean()) < 1e-7 and abs(out[:, j].std() - 1) < 1e-7, 'power: not standardised')
    if box:
        bad = x.copy()
        bad[c.int(0, n - 1), c.int(0, p - 1)] = c.pick([0.0, -1.0])
        c.refused(lambda: PowerTransformerBox().transform(gen.mat(c, bad)), 'box-cox of a non-positive value')


def PowerTransformerBox():
    o = PowerTransformer()
    o.method = 'box-cox'
    return o


def quantile(c):
    n, p = gen.rows(c, 3, 40), c.int(1, 4)
    x = c.rng.normal(size=(n, p))
    if c.chance(0.3):
        x = np.round(x * 2) / 2
    if c.chance(0.3):
        x[:, c.int(0, p - 1)] = 1.25
    o = QuantileTransformer()
    nq = c.pick([1000, 5, 10, 3, n, 2])
    dist = c.pick(['uniform', 'normal'])
    if nq != 1000:
        o.n_quantiles = nq
    if dist != 'uniform' or c.chance(0.3):
        o.output_distribution = dist
    c.sig('quantile', x, nq, dist)
    out, f = fit(c, o, x)
    c.ok(out.shape == x.shape, 'shape')
    k = min(nq, n)
    r = np.linspace(0, 1, k)

    def ref(v, col):
        q = np.maximum.accumulate(np.percentile(col, r * 100))
        y = 0.5 * (np.interp(v, q, r) - np.interp(-v, -q[::-1], -r[::-1]))
        hi, lo = v + 1e-7 > q[-1], v - 1e-7 < q[0]
        if dist == 'uniform':
            hi, lo = v == q[-1], v == q[0]
        y = np.where(v >= q[-1], 1.0, y)
        y = np.where(v <= q[0], 0.0, y)
        y = np.where(hi, 1.0, y)
        y = np.where(lo, 0.0, y)
        if dist == 'uniform':
            return y
        lim = scipy.stats.norm.ppf(1 - 1e-7)
        return np.clip(scipy.stats.norm.ppf(y), -lim, lim)

    u = np.vstack([x[c.perm(n)[:2]] + 0.01, c.rng.normal(size=(2, p)) * 3])
    w = f(u)
    for j in range(p):
        want = ref(x[:, j], x[:, j])
        c.ok(bool(np.all(np.abs(out[:, j] - want) < 1e-6)), f'quantile {nq} {dist}: {out[:, j]} expected {want}')
        want = ref(u[:, j], x[:, j])
        c.ok(bool(np.all(np.abs(w[:, j] - want) < 1e-6)), f'quantile {nq} {dist}: unseen {w[:, j]} expected {want}')


def log(c):
    n, p = size(c)
    o = Log()
    base, off = c.pick([np.e, 2.0, 10.0, 0.5, 3, 10]), c.pick([1.0, 0.0, 5.0, -2.0, 2])
    if base != np.e:
        o.base = base
    if off != 1.0 or c.chance(0.3):
        o.offset = off
    x = c.rng.uniform(0.01, 8, size=(n, p)) * c.pick([1, 1e-4, 1e5]) - off
    c.sig('log', x, base, off)
    if np.any(x + off <= 0):
        raise Skip()
    out, f = fit(c, o, x)
    u = c.rng.uniform(0.01, 8, size=(3, p)) - off
    for got, a in ((out, x), (f(u), u)):
        want = np.log(a + off) / np.log(base)
        c.close(got, want, f'log base {base} offset {off}', 1e-10, max(1.0, np.abs(want).max()))
    bad = x.copy()
    bad[c.int(0, n - 1), c.int(0, p - 1)] = -off - c.pick([0.0, 0.0, 1.0, 1e-9])
    c.refused(lambda: o.transform(gen.mat(c, bad)), 'logarithm of a non-positive argument')


SCENARIOS = [('center', center, 1500, 30000), ('standardize', standardize, 3000, 60000), ('rownorm', rownorm, 2000, 40000),
             ('robust', robust, 2500, 50000), ('power', power, 500, 6000), ('quantile', quantile, 1500, 30000),
             ('log', log, 1500, 30000)]
