"""C15: an online checker of the train-before-use protocol over traces of calls on algorithm objects."""
import numpy as np

from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.ica.approxfun import LogCosH
from wai.ma.algorithm.pls import DIPLS, NIPALS, OPLS, PLS1, SIMPLS, DeflationMode, KernelPLS
from wai.ma.core import PreprocessingType
from wai.ma.transformation.kernel import RBFKernel

from .. import gen, instr, zoo
from ..common import Skip, arr

RULE = ('interleavings of training on good and bad data, valid and invalid assignments, reset, predict and transform on '
        'one object per case; a two-state automaton (untrained/trained) predicts after every step whether the object '
        'says it is trained, answers or refuses; distinct: different (algorithm, trace, data)')
ASSUMPTIONS = ['extracting more components than the rank of the data is not judged',
               'plain initialize(x, y) of a domain-invariant model is judged only on an object without earlier domains',
               'matrices an object exposes after a failed training are not judged']
NAN = float('nan')
INVALID = {
    'NIPALS': [('tol', -1e-9), ('tol', NAN), ('max_iter', -1)],
    'CCARegression': [('tol', -1.0), ('max_iter', -5)],
    'KernelPLS': [('tol', -1e-9), ('tol', NAN), ('max_iter', -1)],
    'DIPLS': [('lambda_', 0.0), ('lambda_', 1e-9), ('lambda_', -5e-9)],
    'SparsePLS': [('tol', -1.0), ('tol', NAN), ('max_iter', -1), ('lambda_', -0.1), ('lambda_', NAN)],
    'PRM': [('tol', -1.0), ('max_iter', -2), ('C', 0.0), ('C', 1e-11), ('C', -1e-11)],
    'CCAFilter': [('kcca', 0), ('kcca', -1)],
    'GLSW': [('alpha', 0.0), ('alpha', -1.0), ('alpha', NAN)],
    'EPO': [('alpha', 0.0), ('N', 0), ('N', -3)],
    'YGradientGLSW': [('alpha', 0.0), ('alpha', -1e-3)],
    'YGradientEPO': [('alpha', -1.0), ('N', 0)],
    'PCA': [('variance', 0.0), ('variance', 1.0), ('variance', -0.5), ('variance', 1.5), ('variance', NAN),
            ('max_columns', 0), ('max_columns', -2)],
    'FastICA': [('num_components', 0), ('num_components', -1), ('max_iter', -1), ('tol', -1e-9), ('tol', NAN)],
}
PLS = dict(num_components=5, preprocessing_type=PreprocessingType.NONE)
DEFAULTS = {
    'PLS1': PLS, 'SIMPLS': dict(PLS, num_coefficients=0),
    'NIPALS': dict(PLS, tol=1e-6, max_iter=500, norm_Y_weights=False, deflation_mode=DeflationMode.REGRESSION),
    'CCARegression': dict(PLS, tol=1e-6, max_iter=500, norm_Y_weights=False, deflation_mode=DeflationMode.CANONICAL),
    'KernelPLS': dict(PLS, tol=1e-6, max_iter=500), 'OPLS': PLS, 'DIPLS': dict(PLS, lambda_=1.0),
    'SparsePLS': dict(PLS, tol=1e-7, max_iter=500, lambda_=0.5),
    'PRM': dict(PLS, tol=1e-6, max_iter=500, C=4.0, num_SIMPLS_coefficients=-1),
    'VCPLS': dict(PLS, lambda_=1.0), 'CCAFilter': dict(kcca=1, lambda_X=1e-2, lambda_Y=1e-2),
    'GLSW': dict(alpha=1e-3), 'EPO': dict(alpha=1e-3, N=5), 'YGradientGLSW': dict(alpha=1e-3),
    'YGradientEPO': dict(alpha=1e-3, N=5), 'PCA': dict(variance=0.95, max_columns=-1, center=False),
    'FastICA': dict(num_components=5, whiten=True, max_iter=500, tol=1e-4, algorithm=Algorithm.DEFLATION),
}
SELF_TRAINING = ('PCA', 'FastICA')


def worker_init():
    instr.install()


worker_report = instr.report


def finite(obs):
    return all(np.all(np.isfinite(v)) for v in obs.values())


def same_obs(c, a, b, what):
    c.ok(sorted(a) == sorted(b), f'{what}: exposes {sorted(b)} instead of {sorted(a)}')
    for k in a:
        c.close(b[k], a[k], f'{what}: {k}', 1e-12, max(1.0, float(np.abs(a[k]).max())) if a[k].size else 1.0)


class Run:
    def __init__(self, c, name):
        self.c, self.name = c, name
        self.s = zoo.spec(c, name, prep=True)
        self.o = self.s.build()
        self.trained = False
        self.data = None
        self.log = []
        # a domain-invariant model keeps to the width of its first data (finding KF3, judged under C16)
        self.width = c.int(5, 8) if name == 'DIPLS' else None

    def what(self):
        return f'{self.s} after {self.log}'

    def queries(self):
        x = self.s.predictors(self.data) if self.data is not None else self.c.rng.normal(size=(9, 4))
        y = self.s.response(self.data) if self.data is not None else None
        r = [self.c.int(0, len(x) - 1) for _ in range(self.c.int(1, 3))]
        return gen.mat(self.c, x[r]), (gen.mat(self.c, y[:2]) if y is not None else None)

    def expect(self):
        """The object must be in the state the protocol says."""
        c, s, o = self.c, self.s, self.o
        c.ok(o.is_initialised() == self.trained,
             f'{self.what()}: says trained={o.is_initialised()}, protocol says {self.trained}')
        xq, yq = self.queries()
        if self.trained:
            obs = c.call(f'use of {self.what()}', s.observe, o, xq, yq)
            return obs
        c.ev('untrained')
        if s.pls:
            c.refused(lambda: o.predict(xq), f'predict of untrained {self.what()}')
            c.refused(lambda: o.transform(xq), f'transform of untrained {self.what()}')
        elif self.name == 'CCAFilter':
            c.refused(lambda: o.transform(xq), f'transform of untrained {self.what()}')
            c.refused(lambda: o.transform_response(gen.mat(c, np.ones((2, s.q)))), f'transform_response: {self.what()}')
        elif self.name == 'FastICA':
            c.refused(lambda: o.reconstruct(), f'reconstruct of untrained {self.what()}')
        elif self.name not in SELF_TRAINING:
            c.refused(lambda: o.transform(xq), f'transform of untrained {self.what()}')
        return None

    def params_kept(self):
        for k, v in self.s.params.items():
            self.c.ok(getattr(self.o, k) == v, f'{self.what()}: {k} is {getattr(self.o, k)!r}, was set to {v!r}')

    # --- steps -------------------------------------------------------------
    def train(self):
        c, s = self.c, self.s
        self.data = s.data(c, p=self.width)
        m = s.mats(c, self.data)
        self.log.append('train')
        msg = c.call(f'training of {self.what()}', s.train, self.o, m)
        c.ok(msg is None, f'{self.what()}: training on good data reported {msg!r}')
        self.trained = True
        obs = self.expect()
        if not (s.params.get('whiten') is False):
            if self.name == 'SparsePLS':
                obs.pop('answer:transform')  # 0/0 when a component repeats a feature (finding KF10, judged under C18)
            c.ok(finite(obs), f'{self.what()}: trained on good data but not usable (not finite)')
        if s.pls:
            c.ok(self.o.get_matrix('no such matrix') is None, f'{self.what()}: unknown matrix')
            c.ok(self.o.get_matrix('') is None, f'{self.what()}: unknown matrix')
            c.ok(self.o.can_predict() is True, f'{self.what()}: can_predict')
        c.ev('trained')

    def bad_train(self):
        c, s, o = self.c, self.s, self.o
        d = s.data(c, p=self.width)
        m = s.mats(c, d)
        kind = None
        if self.name in SELF_TRAINING:
            return
        if self.name == 'DIPLS':
            kind = c.pick(['rows', 'response', 'columns', 'none', 'single'])
            if kind == 'rows':
                m['ys'] = gen.mat(c, d['ys'][:-1])
            elif kind == 'response':
                m['ys'] = gen.mat(c, np.hstack([d['ys'], d['ys']]))
                m['yt'] = gen.mat(c, np.hstack([d['yt'], d['yt']]))
            elif kind == 'columns':
                m['xt'] = gen.mat(c, d['xt'][:, :-1])
            elif kind == 'single':
                k = c.pick(['s', 't'])
                m['x' + k], m['y' + k] = gen.mat(c, d['x' + k][:1]), gen.mat(c, d['y' + k][:1])
            else:
                m[c.pick(['xs', 'xt', 'ys'])] = None
        elif 'x1' in m:
            kind = c.pick(['none1', 'none2', 'rows', 'columns'] if not self.name.startswith('Y') else
                          ['none1', 'none2', 'rows'])
            if kind == 'none1':
                m['x1'] = None
            elif kind == 'none2':
                m['x2'] = None
            elif kind == 'rows':
                k = c.pick(['x1', 'x2'])
                m[k] = gen.mat(c, d[k][:-1])
            else:
                k = c.pick(['x1', 'x2'])
                m[k] = gen.mat(c, d[k][:, :-1])
        else:
            kind = c.pick(['none x', 'none y', 'rows x', 'rows y', 'response', 'one row'])
            if kind == 'none x':
                m['x'] = None
            elif kind == 'none y':
                m['y'] = None
            elif kind == 'rows x':
                m['x'] = gen.mat(c, d['x'][:-c.int(1, 3)])
            elif kind == 'rows y':
                m['y'] = gen.mat(c, d['y'][:-c.int(1, 3)])
            elif kind == 'one row':
                m['y'] = gen.mat(c, d['y'][:1])
            elif kind == 'response':
                if self.name == 'CCAFilter':
                    o.kcca = s.params['kcca'] = c.pick([s.q + 1, d['x'].shape[1] + 3])
                elif self.name in zoo.MULTI:
                    return
                else:
                    m['y'] = gen.mat(c, np.hstack([d['y']] * c.int(2, 3)))
        self.log.append('bad training: ' + kind)
        c.ev('bad training: ' + kind)
        try:
            msg = s.train(o, m)
            c.ok(isinstance(msg, str) and msg != '', f'{self.what()}: training reported {msg!r}')
            c.ev('message')
        except Exception as e:
            if type(e).__name__ == 'Violation':
                raise
            c.ev('raised')
        self.trained = False
        self.data = None
        self.expect()
        if kind == 'response' and self.name == 'CCAFilter':
            o.kcca = s.params['kcca'] = 1
        self.params_kept()

    def assign(self):
        c, s, o = self.c, self.s, self.o
        other = zoo.spec(c, self.name, prep=True, q=s.q if self.name in zoo.MULTI or self.name == 'CCAFilter' else None)
        cands = [k for k in other.params] + list(other.makers)
        if self.name == 'NIPALS':
            cands = [k for k in cands if k not in ('deflation_mode', 'num_components')] + ['pair']
        k = c.pick(cands)
        if c.chance(0.2) and k in s.params:
            other.params[k] = s.params[k]  # the same value again
        self.log.append('assign ' + k)
        c.ev('valid assignment')
        if k == 'pair':
            for k in c.pick([['deflation_mode', 'num_components'], ['num_components', 'deflation_mode']]):
                setattr(o, k, other.params[k])
                s.params[k] = other.params[k]
                self.trained = False
                self.expect()
        elif k in other.params:
            setattr(o, k, other.params[k])
            s.params[k] = other.params[k]
        else:
            setattr(o, k, other.makers[k]())
            s.makers[k] = other.makers[k]
            s.note = other.note
        self.trained = False
        self.expect()
        if s.pls and c.chance(0.3):
            for n in o.get_matrix_names():
                c.ok(o.get_matrix(n) is None, f'{self.what()}: untrained but offers {n}')
        self.params_kept()

    def invalid(self):
        c, o = self.c, self.o
        if self.name not in INVALID:
            return
        k, v = c.pick(INVALID[self.name])
        if c.chance(0.3):
            v = np.int64(v) if isinstance(v, int) else np.float64(v)  # compares to numpy's truth values
        before = getattr(o, k)
        self.log.append(f'assign invalid {k}={v!r}')
        c.ev('invalid assignment')
        if self.trained:
            xq, yq = self.queries()
            obs = self.s.observe(o, xq, yq)
        c.refused(lambda: setattr(o, k, v), f'{self.what()}: assignment')
        now = getattr(o, k)
        c.ok(now == before, f'{self.what()}: {k} changed from {before!r} to {now!r}')
        self.expect()
        if self.trained:
            same_obs(c, obs, self.s.observe(o, xq, yq), self.what())

    def reset(self):
        self.log.append('reset')
        self.o.reset()
        self.trained = False
        self.expect()
        self.params_kept()
        c, o = self.c, self.o
        if self.s.pls:
            for n in o.get_matrix_names():
                c.ok(o.get_matrix(n) is None, f'{self.what()}: reset but offers {n}')
            c.ok(o.get_matrix('no such matrix') is None, f'{self.what()}: unknown matrix')
        for k in {'PCA': ['scores', 'loadings'], 'FastICA': ['sources', 'components', 'mixing'],
                  'CCAFilter': ['proj_X', 'proj_Y'], 'GLSW': ['G'], 'EPO': ['G'], 'YGradientGLSW': ['G'],
                  'YGradientEPO': ['G']}.get(self.name, []):
            c.ok(getattr(o, k) is None, f'{self.what()}: reset but offers {k}')

    def bad_query(self):
        """A query of another width is refused and leaves the model as it was."""
        c, s, o = self.c, self.s, self.o
        if not self.trained or self.name in SELF_TRAINING:
            return
        p = s.predictors(self.data).shape[1]
        w = c.pick([p + 1, p - 1, p + 4])
        bad = gen.mat(c, c.rng.normal(size=(c.int(2, 4), w)))
        xq, yq = self.queries()
        obs = s.observe(o, xq, yq)
        self.log.append(f'query of {w} columns')
        c.ev('query of another width')
        c.refused(lambda: o.transform(bad), f'{self.what()}: transform of {w} columns, trained on {p}')
        if s.pls:
            c.refused(lambda: o.predict(bad), f'{self.what()}: predict of {w} columns, trained on {p}')
        same_obs(c, obs, s.observe(o, xq, yq), self.what())

    def use(self):
        self.log.append('use')
        self.expect()
        self.params_kept()
        t = str(self.o)
        self.c.ok(isinstance(t, str), 'text')


def protocol(c):
    name = (zoo.PLS_NAMES + zoo.OTHER_NAMES)[c.index % 17]
    r = Run(c, name)
    r.expect()
    r.params_kept()
    for _ in range(c.int(3, 8)):
        step = c.pick(['train', 'train', 'bad_train', 'assign', 'invalid', 'reset', 'bad_query', 'use'])
        getattr(r, step)()
    c.sig(name, repr(r.s), tuple(r.log), c.index)
    c.ev('algorithm:' + name)
    c.sample({'algorithm': repr(r.s), 'trace': r.log})


def defaults(c):
    """Fresh objects, and objects sent back to their defaults by initialize()."""
    name = (zoo.PLS_NAMES + zoo.OTHER_NAMES)[c.index % 17]
    s = zoo.spec(c, name, prep=True)
    o = zoo.CLASSES[name]()
    c.sig('defaults', name, repr(s))

    def look(o, what):
        for k, v in DEFAULTS[name].items():
            got = getattr(o, k)
            c.ok(got == v and isinstance(got, bool) == isinstance(v, bool), f'{what}: {k} is {got!r}, documented {v!r}')
        if name == 'KernelPLS':
            c.ok(isinstance(o.kernel, RBFKernel) and o.kernel.gamma == 1, f'{what}: kernel')
        if name == 'OPLS':
            c.ok(type(o.base_PLS) is PLS1 and o.base_PLS.num_components == 5, f'{what}: base model')
        if name == 'FastICA':
            c.ok(type(o.fun) is LogCosH and o.fun.alpha == 1, f'{what}: contrast')
        c.ok(o.is_initialised() is False, f'{what}: trained')
    look(o, f'fresh {name}')
    if name == 'DIPLS':
        x, y = gen.regression(c, 12, 4)
        msg = o.initialize(gen.mat(c, x), gen.mat(c, y))
        c.ok(isinstance(msg, str) and msg != '', 'DIPLS trained without domains')
        c.refused(lambda: o.predict(gen.mat(c, x)), 'DIPLS without domains')
    u = s.build()
    if c.chance(0.5):
        d = s.data(c)
        s.train(u, s.mats(c, d))
        if name == 'DIPLS' and c.chance(0.7):  # an earlier training must not lend its domains
            if c.chance(0.3):
                u.reset()
            x, y = gen.regression(c, c.pick([12, len(d['xs']) + len(d['xt']), 30]), d['xs'].shape[1])
            try:
                msg = u.initialize(gen.mat(c, x), gen.mat(c, y))
            except Exception as e:
                msg = repr(e)
            c.ok(isinstance(msg, str) and msg != '', f'{s}: trained without domains after another training')
            c.ok(u.is_initialised() is False, 'DIPLS without domains counts as trained')
            c.refused(lambda: u.predict(gen.mat(c, x)), 'DIPLS without domains after another training')
            c.ev('domains not given again')
    u.initialize()
    look(u, f'{s} after initialize()')
    look(zoo.CLASSES[name](), f'second fresh {name}')
    c.ev('defaults')


def base(c):
    """A composite model trains only if its base model does, whatever the base model."""
    x, y = gen.regression(c, c.int(12, 24), c.int(4, 8))

    class Refusing(PLS1):
        def initialize(self, predictors=None, response=None):
            if predictors is not None and mode != 'fine':
                self.reset()
                if mode == 'raise':
                    raise RuntimeError('no')
                return 'no'
            return super().initialize(predictors, response)
    mode = 'fine'
    o = OPLS()
    b = Refusing()
    b.num_components = 1
    o.base_PLS = b
    o.num_components = c.int(1, 2)
    trace = []
    c.sig('base', x, y)
    for _ in range(c.int(2, 6)):
        mode = c.pick(['fine', 'message', 'raise'])
        trace.append(mode)
        try:
            msg = o.initialize(gen.mat(c, x), gen.mat(c, y))
            good = msg is None
        except Exception as e:
            if type(e).__name__ == 'Violation':
                raise
            good = False
        c.ok(good == (mode == 'fine'), f'OPLS with base training {trace}: reported success={good}')
        c.ok(o.is_initialised() == good, f'OPLS with base training {trace}: says trained={o.is_initialised()}')
        if good:
            c.ok(bool(np.all(np.isfinite(arr(o.predict(gen.mat(c, x)))))), 'OPLS prediction')
        else:
            c.refused(lambda: o.predict(gen.mat(c, x)), f'OPLS with base training {trace}')
            c.refused(lambda: o.transform(gen.mat(c, x)), f'OPLS with base training {trace}')
    c.ev('base model training', len(trace))


# Finding KF16: what trains silently on data without anything to learn from, and then cannot be used
UNUSABLE = {'constant response': ('PLS1', 'SIMPLS', 'KernelPLS', 'OPLS', 'SparsePLS', 'DIPLS'),
            'constant predictors': ('PLS1', 'SIMPLS', 'KernelPLS', 'OPLS', 'SparsePLS', 'VCPLS', 'DIPLS'),
            'single row': ('PLS1', 'SIMPLS', 'NIPALS', 'KernelPLS', 'OPLS', 'SparsePLS', 'VCPLS', 'CCARegression')}


def degenerate(c):
    """Data without variation are refused, or the model is usable."""
    name = zoo.PLS_NAMES[c.index % len(zoo.PLS_NAMES)]
    kind = c.pick(sorted(UNUSABLE))
    s = zoo.spec(c, name, prep=True, q=1)
    data = s.data(c)
    x, y = ('xs', 'ys') if name == 'DIPLS' else ('x', 'y')
    v = c.pick([0.0, 2.0, -3.5])
    if kind == 'constant response':
        for n in ('y', 'ys', 'yt'):
            if n in data:
                data[n] = np.full_like(data[n], v)
    elif kind == 'constant predictors':
        for n in ('x', 'xs', 'xt', 'xu'):
            if n in data:
                data[n] = np.full_like(data[n], v)
    else:
        data = {n: a[:1] for n, a in data.items()}
    what = f'{s} on data with {kind} {v}'
    o = s.build()
    if c.chance(0.5):
        s.train(o, s.mats(c, s.data(c, p=data[x].shape[1])))
    try:
        good = s.train(o, s.mats(c, data)) is None
    except Exception:
        good = False
    q = c.rng.normal(size=(2, data[x].shape[1]))
    c.ok(o.is_initialised() == good, f'{what}: reported success={good}, says trained={o.is_initialised()}')
    c.sig(repr(s), kind, data[x], data[y])
    if not good:
        c.refused(lambda: o.predict(gen.mat(c, q)), f'{what}: prediction of an untrained model')
        c.ev('degenerate data refused')
        return
    try:
        a = o.predict(gen.mat(c, q)).data
        usable = bool(np.all(np.isfinite(a)))
    except Exception:
        usable = False
    c.checks += 1
    if usable:
        c.ev('degenerate data learned')
    elif name in UNUSABLE[kind]:
        c.known('KF16', what)
    else:
        c.fail(f'{what}: training reported success but the model cannot predict')


SCENARIOS = [('degenerate', degenerate, 500, 6000), ('protocol', protocol, 5100, 40000), ('defaults', defaults, 340, 3400), ('base', base, 100, 2000)]
