"""C07: an online checker of the fit-once protocol over traces of calls on transformation objects."""
import numpy as np

from wai.ma import transformation
from wai.ma.transformation import OutputMode

from .. import gen, instr, trafo
from ..common import arr

RULE = ('interleavings of configure / transform / inverse_transform / reset / valid and invalid assignments on two '
        'objects of a class; after every use the answer is compared with a fresh object given the parameters and the '
        'matrix the protocol says it learned from; distinct: different (class, trace, data)')
ASSUMPTIONS = ['assigning a scatter correction does not affect the learned average, so its re-learning is not judged',
               'what an inverse transformation learns on an object never configured is not judged']
INVALID = {
    'SavitzkyGolay': [('polynomial_order', 1), ('polynomial_order', -3), ('derivative_order', -1),
                      ('num_points_left', -1), ('num_points_right', -2)],
    'SavitzkyGolay2': [('polynomial_order', 0), ('derivative_order', -1), ('num_points', -1)],
    'Log': [('base', 1.0), ('base', 0.0), ('base', -2.0), ('base', 1)],
    'RobustScaler': [('quantile_range', (75.0, 25.0)), ('quantile_range', (0.0, 50.0)), ('quantile_range', (50.0, 100.0)),
                     ('quantile_range', (30.0, 30.0))],
    'PowerTransformer': [('method', 'cox-box'), ('method', None)],
    'QuantileTransformer': [('output_distribution', 'gauss')],
    'FFT': [('output_mode', 5), ('output_mode', 0)],
}
RELEARN = ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'SavitzkyGolay',
           'SavitzkyGolay2')


def worker_init():
    instr.install()


worker_report = instr.report


class Track:
    """One object and what the protocol says about it."""

    def __init__(self, c, name):
        self.t = trafo.spec(c, name)
        self.o = self.t.build()
        self.fitted = None
        self.like = None

    def fresh(self):
        f = self.t.build()
        if self.fitted is not None:
            f.configure(gen.plain(self.fitted))
        return f


def data(c, k, name, new):
    """A matrix the object can work on now; of new dimensions when allowed."""
    if name == 'MSC':
        if k.like is None:
            k.like = trafo.data(c, name)
        return trafo.data(c, name, k.like)
    if new or k.fitted is None or name not in trafo.FITTED:
        x = trafo.data(c, name)
        if name in ('Center', 'Standardize', 'RobustScaler') and c.chance(0.15):
            x[:, c.int(0, x.shape[1] - 1)] = 2.5
        return x
    return trafo.data(c, name, k.fitted)


def assign(c, k, name):
    if name == 'MSC' or not k.t.params:
        return False
    new = trafo.spec(c, name)
    if name.startswith('Savitzky'):  # the settings only make sense together
        k.t = new
        names = list(new.params)
    else:
        names = [c.pick(sorted(new.params))]
        k.t.params.update({n: new.params[n] for n in names})
    for n in c.rng.permutation(names):
        setattr(k.o, str(n), k.t.params[str(n)])
    return True


def history(c):
    name = c.pick(trafo.NAMES)
    ks = [Track(c, name) for _ in range(c.pick([1, 2, 2]))]
    log = []
    for _ in range(c.int(3, 12)):
        k = c.pick(ks)
        w = c.pick(['configure', 'transform', 'transform', 'transform', 'inverse', 'reset', 'assign', 'invalid'])
        log.append((ks.index(k), w))
        c.ev(f'{name}.{w}')
        c.ev('transition ' + (log[-2][1] if len(log) > 1 else 'new') + '>' + w)
        if w == 'configure':
            x = data(c, k, name, True)
            k.o.configure(gen.plain(x))
            k.fitted = x
        elif w == 'transform':
            x = data(c, k, name, False)
            if k.fitted is None or name == 'RowNorm':
                k.fitted = x
            got = arr(k.o.transform(gen.plain(x)), f'{k.t} transform')
            want = arr(k.fresh().transform(gen.plain(x)))
            c.close(got, want, f'{k.t} transform after {log}', 1e-9, max(np.abs(want).max(), 1e-9))
        elif w == 'inverse':
            if not k.t.invertible() or name in trafo.FITTED and k.fitted is None:
                continue
            x = data(c, k, name, False)
            if name in ('PowerTransformer', 'QuantileTransformer'):
                x = arr(k.fresh().transform(gen.plain(x)))
            got = arr(k.o.inverse_transform(gen.plain(x)), f'{k.t} inverse_transform')
            if name == 'RowNorm':
                continue
            want = arr(k.fresh().inverse_transform(gen.plain(x)))
            c.close(got, want, f'{k.t} inverse_transform after {log}', 1e-9, max(np.abs(want).max(), 1e-9))
        elif w == 'reset':
            k.o.reset()
            k.fitted = None
        elif w == 'assign':
            if assign(c, k, name):
                k.fitted = None
        elif w == 'invalid' and name in INVALID:
            attr, value = c.pick(INVALID[name])
            before = getattr(k.o, attr)
            c.refused(lambda: setattr(k.o, attr, value), f'{name}.{attr} = {value!r}')
            c.ok(getattr(k.o, attr) == before, f'{name}.{attr} changed by a rejected value')
    c.sig(name, [repr(k.t) for k in ks], log, [k.fitted if k.fitted is not None else 0 for k in ks])
    c.sample({'objects': [repr(k.t) for k in ks], 'trace': log})


def answers(o, x):
    return arr(o.transform(gen.plain(x)))


def probes(c):
    """Fit once, then many uses of every kind; the answer for one probe never moves."""
    name = c.pick(RELEARN + ('MSC',))
    t = trafo.spec(c, name)
    o = t.build()
    x = trafo.data(c, name)
    probe = trafo.data(c, name, x)
    explicit = c.chance(0.5)
    if explicit:
        o.configure(gen.plain(x))
    else:
        o.transform(gen.plain(x))
    first = answers(o, probe).copy()
    f = t.build()
    f.configure(gen.plain(x))
    c.close(first, answers(f, probe), f'{t} explicit={explicit}', 1e-9, max(np.abs(first).max(), 1e-9))
    for _ in range(c.int(1, 5)):
        r = c.int(0, 3)
        y = trafo.data(c, name, x)
        if r == 0:
            o.transform(gen.plain(y * (1 if name == 'MSC' else 3)))
        elif r == 1 and t.invertible():
            o.inverse_transform(o.transform(gen.plain(y)))
        elif r == 2 and name in INVALID:
            attr, value = c.pick(INVALID[name])
            c.refused(lambda: setattr(o, attr, value), f'{name}.{attr} = {value!r}')
        else:
            t.build().transform(gen.plain(y))  # another object of the class
        c.close(answers(o, probe), first, f'{t}: answer for the same matrix moved', 1e-12, max(np.abs(first).max(), 1e-9))
    c.sig('probe', repr(t), x, probe)
    c.sample({'object': repr(t), 'explicit': explicit})


def reuse(c):
    """The caller keeps one Matrix object and changes its contents between the calls."""
    name = trafo.NAMES[c.index % len(trafo.NAMES)]
    t = trafo.spec(c, name)
    o = t.build()
    x = trafo.data(c, name)
    m = gen.plain(x)
    fitted, log = None, []

    def fresh():
        f = t.build()
        if fitted is not None:
            f.configure(gen.plain(fitted))
        return f
    for i in range(c.int(3, 8)):
        w = c.pick(['configure', 'transform', 'transform', 'change', 'change', 'inverse', 'reset'])
        log.append(w)
        if w == 'change':
            if name == 'MSC':
                x = x.copy()
                x[:, 1:] = x[:, 1:] * c.uni(0.5, 2) + c.uni(-1, 1) + 0.05 * c.rng.normal(size=x[:, 1:].shape)
            elif name in ('Log', 'PowerTransformer', 'QuantileTransformer'):
                x = x.copy()
                j = c.int(0, x.shape[1] - 1)
                x[:, j] = x[c.perm(len(x)), j] * c.uni(0.7, 1.4)
                if c.chance(0.5):
                    x = x * c.rng.uniform(0.8, 1.25, size=x.shape)
            else:
                x = gen.edited(c, x)
            gen.rewrite(c, m, x)
        elif w == 'configure':
            o.configure(m)
            fitted = x.copy()
        elif w == 'transform':
            if fitted is None or name == 'RowNorm':
                fitted = x.copy()
            got = arr(o.transform(m), f'{t} transform')
            want = arr(fresh().transform(gen.plain(x)))
            c.close(got, want, f'{t} transform of a matrix changed in place, after {log}', 1e-9,
                    max(np.abs(want).max(), 1e-9))
        elif w == 'inverse':
            if not t.invertible() or name in ('RowNorm', 'PowerTransformer') or name in trafo.FITTED and fitted is None:
                continue
            got = arr(o.inverse_transform(m), f'{t} inverse_transform')
            want = arr(fresh().inverse_transform(gen.plain(x)))
            c.close(got, want, f'{t} inverse_transform of a matrix changed in place, after {log}', 1e-9,
                    max(np.abs(want).max(), 1e-9))
        else:
            o.reset()
            fitted = None
        c.same(m, x, f'{t}: the matrix after {log}')
    c.sig('reuse', repr(t), log, x)
    c.ev('reuse:' + name)


def oneshot(c):
    name, fn = c.pick([('Center', transformation.center), ('RowNorm', transformation.row_norm),
                       ('Standardize', transformation.standardize), ('Log', transformation.log)] +
                      [(n, trafo.CLASSES[n].quick_apply) for n in trafo.NAMES if n != 'MSC'])
    xs = [trafo.data(c, name) for _ in range(3)]
    c.sig('oneshot', name, *xs)
    for x in xs:
        want = arr(trafo.CLASSES[name]().transform(gen.plain(x)))
        c.close(fn(gen.plain(x)), want, f'one-shot {name}', 1e-9, max(np.abs(want).max(), 1e-9))


def defaults(c):
    """Documented defaults of fresh objects, whatever other objects did."""
    name = c.pick(trafo.NAMES)
    t = trafo.spec(c, name)
    o = t.build()
    o.transform(gen.plain(trafo.data(c, name)))
    f = trafo.CLASSES[name]()
    want = {'SavitzkyGolay': dict(polynomial_order=2, derivative_order=1, num_points_left=3, num_points_right=3),
            'SavitzkyGolay2': dict(polynomial_order=2, derivative_order=1, num_points=3),
            'Log': dict(base=np.e, offset=1.0), 'FFT': dict(orthonormalisation=False, output_mode=OutputMode.AMPLITUDE_ONLY),
            'RobustScaler': dict(with_centering=True, with_scaling=True, quantile_range=(25.0, 75.0)),
            'PowerTransformer': dict(method='yeo-johnson', standardise=True),
            'QuantileTransformer': dict(n_quantiles=1000, output_distribution='uniform')}.get(name, {})
    c.sig('defaults', name, repr(t))
    for a, v in want.items():
        c.ok(getattr(f, a) == v, f'{name}.{a} of a fresh object is {getattr(f, a)!r}')


SCENARIOS = [('history', history, 3000, 60000), ('probes', probes, 1200, 25000), ('oneshot', oneshot, 800, 8000),
             ('defaults', defaults, 300, 2000), ('reuse', reuse, 1200, 20000)]
