"""C08: round trips through transform and inverse_transform."""
import numpy as np

from wai.ma.transformation import OutputMode

from .. import gen, instr, trafo
from ..common import arr

RULE = ('fit, then transform/inverse and inverse/transform on the fitting matrix and on unseen matrices in the domain; '
        'distinct: different (transformation, parameters, data)')
ASSUMPTIONS = ['quantile transforms: unseen values inside the fitted range (outside it they are clipped by definition); '
               'power transforms: unseen values within half to 1.5 times the fitted range, constant columns excluded']
NAMES = ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'Log', 'FFT', 'PassThrough')
UNITS = (1.0, 1.0, 1.0, 1e-3, 1e-6, 1e-9, 1e-12, 1e4)
PAIRS = (OutputMode.REAL_AND_IMAG_PAIRS, OutputMode.AMPL_ANGLE_PAIRS, 3, 12)


def worker_init():
    instr.install()


worker_report = instr.report


def fitting(c, name):
    if name == 'PowerTransformer':
        return trafo.data(c, name) * c.pick([1.0, 1.0, 1e-1, 1e1])
    if name == 'QuantileTransformer':
        x = trafo.data(c, name) * c.pick([1.0, 1.0, 1e3, 1e6])
        if c.chance(0.25):
            x[:, c.int(0, x.shape[1] - 1)] = c.pick([0.0, 2.5])
        return x
    n, p = gen.dim(c, False), gen.dim(c, False)
    if name == 'Log':
        return c.rng.uniform(0.05, 8, size=(n, p)) * c.pick([1, 1, 1e-3, 1e6])
    x = gen.values(c, n, p, c.pick(['normal', 'uniform', 'ints', 'offset', 'sparse', 'constant', 'dup', 'halves', 'unit']))
    if c.chance(0.3):
        x = x * c.pick(UNITS)
    if c.chance(0.3):
        x = x.copy()
        for _ in range(c.int(1, 2)):
            x[:, c.int(0, p - 1)] = c.pick([0.0, 1.0, -3.7, 0.1, 1e5])
    return x


def unseen(c, name, x):
    n = c.pick([1, 2, c.int(1, 9)])
    p = x.shape[1]
    if name == 'QuantileTransformer':
        return x.min(0) + c.rng.random((n, p)) * (x.max(0) - x.min(0))
    if name == 'PowerTransformer':
        return c.rng.uniform(0.5 * x.min(0), 1.5 * x.max(0), size=(n, p))
    if name == 'Log':
        return c.rng.uniform(0.01, 20, size=(n, p))
    if name in ('FFT', 'PassThrough'):
        return gen.values(c, n, c.pick([p, c.int(1, 12)]), 'normal')
    return c.rng.normal(size=(n, p)) * 3 + c.pick([0.0, 7.0])


def domain(t, x):
    """Moves values into the domain of the object."""
    return x - min(t.params['offset'], 0) if t.name == 'Log' else x


def spec(c, name):
    t = trafo.spec(c, name)
    if name == 'Log' and c.chance(0.3):
        t.params['offset'] = c.pick([-2.0, -0.5, -5, 0.25])
    if name == 'FFT':
        t.params['output_mode'] = c.pick(PAIRS)
    return t


def trip(c):
    name = c.pick(NAMES)
    t = spec(c, name)
    x = domain(t, fitting(c, name))
    o = t.build()
    m = gen.mat(c, x)
    if c.chance(0.5):
        o.configure(m)
        first = o.transform(m)
    else:
        first = o.transform(m)
    arr(first, 'transform')
    tol = {'PowerTransformer': 1e-6, 'QuantileTransformer': 1e-6, 'Log': 1e-9}.get(name, 1e-9)
    c.ev(name)
    seq = [('fitting matrix', x, first)] + [('unseen matrix', u, None) for u in (domain(t, unseen(c, name, x)), domain(t, unseen(c, name, x)))]
    for what, a, fwd in seq:
        mag = max(np.abs(a).max(), np.abs(x).max(), 1e-300)
        if name == 'Log':
            mag = max(mag, abs(float(o.offset)))
        f = fwd if fwd is not None else o.transform(gen.mat(c, a))
        d = arr(f, f'{t} transform of the {what}')
        c.ok(bool(np.isfinite(d).all()), f'{t}: transform of the {what} {a.tolist()!r:.200} not finite')
        c.ok(d.shape[0] == a.shape[0], 'rows')
        b = o.inverse_transform(gen.mat(c, d) if c.chance(0.5) else f)
        c.shape(b, *a.shape, f'{t} round trip of the {what}')
        c.close(b, a, f'{t} round trip of the {what}, fitted on {x.tolist()!r:.300}', tol, mag)
    c.sig(repr(t), x)
    c.sample({'object': repr(t), 'shape': x.shape})


def back(c):
    """transform(inverse_transform(y)) = y for y in the image."""
    name = c.pick(NAMES)
    t = spec(c, name)
    x = domain(t, fitting(c, name))
    o = t.build()
    o.configure(gen.mat(c, x))
    n, p = c.int(1, 6), x.shape[1]
    tol = 1e-9
    if name == 'PowerTransformer':
        y = arr(o.transform(gen.mat(c, unseen(c, name, x))))
        tol = 1e-6
    elif name == 'QuantileTransformer':
        u = np.unique
        if any(len(u(x[:, j])) < x.shape[0] for j in range(p)):
            return  # flat stretches have no unique inverse
        y = arr(o.transform(gen.mat(c, unseen(c, name, x))))
        tol = 1e-5
    elif name == 'FFT':
        p = c.int(1, 12)
        y = c.rng.normal(size=(n, p))
        if t.params['output_mode'] in (OutputMode.AMPL_ANGLE_PAIRS, 12):
            for j in range(2, p, 2):
                y[:, j - 1] = np.abs(y[:, j - 1]) + 0.1
                y[:, j] = c.rng.uniform(-3, 3, size=n)
    elif name == 'Log':
        y = c.rng.uniform(-2, 3, size=(n, p))
        if not np.all(np.power(float(o.base), y) > 0):
            return
        mag = np.power(float(o.base), y)
        tol = 1e-10 * max(1.0, abs(float(o.offset)) / mag.min())
    elif name == 'RobustScaler' or name == 'Standardize' or name == 'Center':
        y = c.rng.normal(size=(n, p))
        a = arr(o.inverse_transform(gen.mat(c, y)))
        tol = 1e-9 + 1e-14 * np.abs(x).max() / spread(o, x)
    else:
        y = c.rng.normal(size=(n, p))
    c.ev(name)
    r = o.transform(o.inverse_transform(gen.mat(c, y)))
    c.close(r, y, f'{t}: transform(inverse_transform(Y)), fitted on {x.tolist()!r:.300}', tol, max(np.abs(y).max(), 1.0))
    c.sig('back', repr(t), x, y)


def spread(o, x):
    """Smallest factor a unit step of the output corresponds to in the input."""
    one = gen.plain(np.ones((1, x.shape[1])))
    zero = gen.plain(np.zeros((1, x.shape[1])))
    d = np.abs(arr(o.inverse_transform(one)) - arr(o.inverse_transform(zero)))
    return max(float(d.min()), 1e-12)


def refusing(c):
    name = c.pick(['SavitzkyGolay', 'SavitzkyGolay2', 'MSC', 'FFT'])
    t = trafo.spec(c, name)
    if name == 'FFT':
        t.params['output_mode'] = c.pick([m for m in OutputMode if m not in PAIRS])
    o = t.build()
    x = trafo.data(c, name)
    y = o.transform(gen.mat(c, x))
    c.sig('refuse', repr(t), x)
    c.refused(lambda: o.inverse_transform(y), f'{t} has no inverse')
    c.refused(lambda: o.inverse_transform(gen.mat(c, x)), f'{t} has no inverse')
    c.refused(lambda: t.build().inverse_transform(gen.mat(c, x)), f'{t} has no inverse')


def fine(c):
    """Power transforms of data in very small or large units: as exact as the underlying definition is there.

    The maximum-likelihood exponent is badly conditioned for such data, so a case only counts when the published
    implementation (scikit-learn) round-trips it.
    """
    method = c.pick(['box-cox', 'yeo-johnson'])
    std = c.chance(0.5)
    n = c.int(6, 25)
    x = np.exp(c.rng.normal(size=(n, 1)) * c.pick([0.3, 0.6, 1.0])) * 10.0 ** c.int(-11, 5)
    from sklearn.preprocessing import PowerTransformer as Published
    try:
        pub = Published(method=method, standardize=std).fit(x)
        again = pub.inverse_transform(pub.transform(x))
    except Exception:
        return
    if not np.isfinite(again).all() or np.abs(again / x - 1).max() > 1e-5:
        c.ev('not representable')
        return
    o = trafo.CLASSES['PowerTransformer']()
    o.method, o.standardise = method, std
    m = gen.mat(c, x)
    b = arr(o.inverse_transform(o.transform(m)))
    c.ev(method)
    c.ok(b.shape == x.shape, f'{method}: shape {b.shape} for {x.shape}')
    c.ok(bool(np.abs(b / x - 1).max() < 1e-3), f'{method} (standardise {std}): round trip of {x.ravel().tolist()} gives {b.ravel().tolist()}')
    c.sig('fine', method, std, x)


SCENARIOS = [('fine', fine, 400, 6000), ('trip', trip, 5000, 80000), ('back', back, 3000, 50000), ('refusal', refusing, 400, 4000)]
