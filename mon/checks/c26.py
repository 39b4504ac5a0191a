"""C26: populations of copies, pickles and originals, each tracked against what its own history says it must answer."""
import copy
import io
import pickle

import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.core.matrix import Matrix
from wai.ma.filter import Downsample, Equidistance

from .. import gen, instr, trafo, zoo
from ..common import Skip, arr

RULE = ('populations of objects grown by deep copies and pickles (every protocol) in random states, then trained, '
        'assigned, reset, described and queried independently; after every step some member is asked for what its own '
        'history prescribes; distinct: different (object, trace, data)')
ASSUMPTIONS = ['copies answer alike up to a relative 1e-9 (storage order may change the rounding)',
               'domain-invariant models are trained once in their lineage (finding KF3 of C16)']
NAMES = zoo.PLS_NAMES + zoo.OTHER_NAMES


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def clone(c, o, what):
    k = c.int(0, 6)
    if k <= 1:
        c.ev('deep copy')
        return c.call(f'deep copy of {what}', copy.deepcopy, o)
    k = c.int(2, pickle.HIGHEST_PROTOCOL) if c.chance(0.8) else c.int(0, 1)
    c.ev(f'pickle protocol {k}')
    blob = c.call(f'pickling {what}', pickle.dumps, o, k)
    if c.chance(0.2):
        c.call(f'unpickling {what}', pickle.loads, blob)
        c.ev('one pickle loaded twice')
    return c.call(f'unpickling {what}', pickle.loads, blob)


def alike(c, got, want, what, tol=1e-9):
    c.ok(sorted(got) == sorted(want), f'{what}: {sorted(got)} instead of {sorted(want)}')
    for k, e in want.items():
        fin = np.isfinite(e)
        c.close(got[k], e, f'{what}: {k}', tol, max(float(np.abs(e[fin]).max()), 1e-12) if fin.any() else None)


def state_bytes(o):
    """The binary state, or None if the object refuses to tell."""
    try:
        b = io.BytesIO()
        o.serialise_state(b)
        return b.getvalue()
    except Exception:
        return None


class Member:
    def __init__(self, o, params, expected=None, query=None, state=None):
        self.o, self.params, self.expected, self.query, self.state = o, params, expected, query, state


def values(s, o):
    out = {k: getattr(o, k) for k in s.params}
    if s.pls:
        out['preprocessing_type'], out['num_components'] = o.preprocessing_type, o.num_components
    for k in s.makers:
        sub = getattr(o, k)
        out[k] = type(sub).__name__
        for a in ('gamma', 'degree', 'coef_0', 'num_components', 'preprocessing_type', 'alpha'):
            if hasattr(sub, a):
                out[f'{k}.{a}'] = getattr(sub, a)
    return out


def look(s, m):
    xq, yq = m.query
    return s.observe(m.o, gen.plain(xq), gen.plain(yq) if yq is not None else None)


def judge(c, s, m, what):
    c.ok(values(s, m.o) == m.params, f'{what}: parameters {values(s, m.o)} instead of {m.params}')
    c.ok(bool(m.o.is_initialised()) == (m.expected is not None), f'{what}: trained is {m.o.is_initialised()}')
    if m.expected is not None:
        alike(c, look(s, m), m.expected, what)
    elif s.name not in ('PCA', 'FastICA') and m.query is not None:
        c.refused(lambda: m.o.transform(gen.plain(m.query[0])), f'{what}: transform of an untrained model')


def models(c):
    name = NAMES[c.index % len(NAMES)]
    s = zoo.spec(c, name, prep=True)
    o = s.build()
    pop = [Member(o, values(s, o))]
    log = []
    for _ in range(c.int(4, 9)):
        m = c.pick(pop)
        w = c.pick(['clone', 'clone', 'train', 'train', 'reset', 'assign', 'describe'])
        if name == 'DIPLS' and m.query is not None and w == 'train':
            w = 'clone'
        if len(log) == 0:
            w = c.pick(['train', 'train', 'train', 'clone'])
        if len(log) == 1:
            w = 'clone'
        log.append((pop.index(m), w))
        what = f'{s} after {log}'
        if w == 'clone' and len(pop) < 5:
            before = state_bytes(m.o)
            pop.append(Member(clone(c, m.o, what), dict(m.params), m.expected, m.query, m.state))
            c.ok(type(pop[-1].o) is type(m.o), f'{what}: the copy is a {type(pop[-1].o).__name__}')
            c.ok(state_bytes(pop[-1].o) == before, f'{what}: the copy serialises differently')
            c.ok(state_bytes(m.o) == before, f'{what}: copying changed the serialised state of the original')
            judge(c, s, pop[-1], what + ', the copy')
        elif w == 'train':
            d = s.data(c)
            x, y = s.predictors(d), s.response(d)
            msg = c.call(what, s.train, m.o, {k: gen.plain(v) for k, v in d.items()})
            c.ok(msg is None, f'{what}: training reported {msg!r}')
            m.query = x[:3] + 0.05 * c.rng.normal(size=x[:3].shape), (y[:3] if y is not None else None)
            m.expected = {k: v.copy() for k, v in look(s, m).items()}
            f = s.build()
            s.train(f, {k: gen.plain(v) for k, v in d.items()})
            alike(c, m.expected, look(s, Member(f, None, None, m.query)), what + ', against a fresh object')
        elif w == 'reset':
            m.o.reset()
            m.expected = None
        elif w == 'assign':
            k = c.pick(sorted(s.params)) if s.params else None
            if k is None:
                continue
            setattr(m.o, k, m.params[k])  # even the same value makes a model untrained
            m.expected = None
        else:
            t = c.call(what, str, m.o)
            c.ok(isinstance(t, str) and t == m.o.to_string(), f'{what}: text {t!r}')
        for k in c.rng.permutation(len(pop))[:2]:
            judge(c, s, pop[k], f'{what}, member {k}')
    c.sig(name, repr(s), log, c.index)
    c.ev('population of ' + str(len(pop)))
    c.ev('model:' + name)
    c.sample({'object': repr(s), 'trace': log})


def transformations(c):
    name = trafo.NAMES[c.index % len(trafo.NAMES)]
    t = trafo.spec(c, name)
    pop = [Member(t.build(), dict(t.params))]
    log = []
    for _ in range(c.int(3, 8)):
        m = c.pick(pop)
        w = c.pick(['clone', 'clone', 'configure', 'reset', 'assign'])
        if not log:
            w = c.pick(['configure', 'configure', 'clone'])
        log.append((pop.index(m), w))
        what = f'{t} after {log}'
        if w == 'clone' and len(pop) < 5:
            before = state_bytes(m.o)
            pop.append(Member(clone(c, m.o, what), dict(m.params), m.expected, m.query, m.state))
            c.ok(type(pop[-1].o) is type(m.o), f'{what}: the copy is a {type(pop[-1].o).__name__}')
            c.ok(state_bytes(pop[-1].o) == before, f'{what}: the copy serialises differently')
            c.ok(state_bytes(m.o) == before, f'{what}: copying changed the serialised state of the original')
        elif w == 'configure':
            x = trafo.data(c, name)
            c.call(what, m.o.reset)
            c.call(what, m.o.configure, gen.mat(c, x))
            m.query = trafo.data(c, name, x)
            m.expected = arr(m.o.transform(gen.plain(m.query))).copy()
            f = t.build()
            for k, v in m.params.items():
                setattr(f, k, v)
            f.configure(gen.plain(x))
            c.close(m.expected, arr(f.transform(gen.plain(m.query))), what + ', against a fresh object', 1e-9,
                    max(np.abs(m.expected).max(), 1e-9))
        elif w == 'reset':
            m.o.reset()
            m.expected = None
        elif w == 'assign' and m.params and not name.startswith('Savitzky'):
            new = trafo.spec(c, name)
            k = c.pick(sorted(new.params))
            setattr(m.o, k, new.params[k])
            m.params[k] = new.params[k]
            m.expected = None
        for k in c.rng.permutation(len(pop))[:2]:
            m = pop[k]
            for a, v in m.params.items():
                got = getattr(m.o, a)
                c.ok(got == v or getattr(got, 'value', None) == v, f'{what}, member {k}: {a} is {got!r} instead of {v!r}')
            if m.expected is not None:
                got = arr(m.o.transform(gen.plain(m.query)))
                c.close(got, m.expected, f'{what}, member {k}', 1e-9, max(np.abs(m.expected).max(), 1e-9))
    c.sig(name, repr(t), log, c.index)
    c.ev('transformation:' + name)
    c.sample({'object': repr(t), 'trace': log})


def matrices(c):
    """Copies of matrices, cached decompositions included, live on their own."""
    sq = c.chance(0.5)
    n = c.int(1, 7)
    a = gen.values(c, n, n if sq else c.int(1, 7), c.pick(['normal', 'ints', 'sparse', 'dup', 'uniform', 'offset']))
    if sq:
        a = a + a.T
    elif c.chance(0.2):
        a = gen.special(c, a)
    m = gen.mat(c, a)
    pop = [(m, a)]
    log = []
    for _ in range(c.int(3, 9)):
        i = c.int(0, len(pop) - 1)
        m, a = pop[i]
        w = c.pick(['clone', 'clone', 'copy', 'decompose', 'set', 'row'])
        log.append((i, w))
        if w in ('clone', 'copy') and len(pop) < 6:
            k = clone(c, m, 'a matrix') if w == 'clone' else m.copy()
            c.same(k, a, f'matrix after {log}')
            c.ok(arr(k).dtype == np.float64, f'a copy holds {arr(k).dtype}')
            c.ok(k == m or bool(np.isnan(a).any()), f'after {log} the copy does not equal the original')
            c.ok(not np.shares_memory(k.data, m.data), f'matrix after {log} shares storage with its copy')
            pop.append((k, a.copy()))
        elif w == 'decompose' and sq:
            m.get_eigenvalues()
        elif w == 'set':
            r, s = c.int(0, a.shape[0] - 1), c.int(0, a.shape[1] - 1)
            a = a.copy()
            v = c.uni(-5, 5)
            m.set(r, s, v)
            a[r, s] = v
            if sq:
                m.set(s, r, v)
                a[s, r] = v
            pop[i] = m, a
        elif w == 'row' and not sq:
            a = a.copy()
            v = c.rng.normal(size=(1, a.shape[1]))
            r = c.int(0, len(a) - 1)
            m.set_row(r, Matrix(v.copy()))
            a[r] = v
            pop[i] = m, a
        for m, a in pop:
            c.same(m, a, f'population of matrices after {log}')
            if sq:
                scale = max(np.abs(a).max(), 1e-12)
                v = np.sort(arr(m.get_eigenvalues()).ravel())
                c.close(v[None, :], np.linalg.eigvalsh(a)[None, :], f'eigenvalues in the population after {log}', 1e-8,
                        scale * n)
    c.sig('matrices', a, log)
    c.ev('population of matrices ' + str(len(pop)))


def filters(c):
    """Column filters and chains."""
    p = c.int(3, 20)
    a = c.rng.normal(size=(c.int(1, 6), p))

    chain = c.chance(0.6)

    def one():
        r = c.int(0, 3)
        if r == 0:
            f = Downsample()
            f.start_index, f.step = (0 if chain else c.int(0, 1)), c.int(1, 3)
            return f
        if r == 1:
            return Equidistance(c.int(2, 9))
        t = trafo.spec(c, c.pick(['Center', 'Standardize', 'RobustScaler', 'FFT', 'PassThrough']))
        return t.build()
    f = one() if not chain else MultiFilter([one() for _ in range(c.int(1, 4))])
    what = f'{type(f).__name__} {[type(k).__name__ for k in getattr(f, "filters", [])]}'
    early = clone(c, f, what) if c.chance(0.5) else None
    want = arr(c.call(what, f.transform, gen.plain(a))).copy()
    if want.shape[1] < 2:
        raise Skip()
    g = clone(c, f, what)
    c.same(g.transform(gen.plain(a)), want, f'copy of {what}')
    if early is not None:  # copied before the first use, so it learns from its own first matrix
        c.same(early.transform(gen.plain(a)), want, f'copy of an unused {what}')
    if isinstance(g, MultiFilter):
        g.filters.append(Equidistance(5))
        c.ok(c.shape(g.transform(gen.plain(a)), len(a), 5) is not None, 'longer chain')
    elif isinstance(g, Equidistance):
        g.num_samples = 3
        g.transform(gen.plain(a))
    elif isinstance(g, Downsample):
        g.step = 7
        g.transform(gen.plain(a))
    else:
        g.reset()
        g.transform(gen.plain(a[:, ::-1] * 3 + 1))
    c.same(f.transform(gen.plain(a)), want, f'{what} after its copy was changed')
    c.sig('filters', what, a)
    c.ev('filter:' + type(f).__name__)


DISPLAYED = dict(PCA=(('max_columns', 4711), ('variance', 0.62527)),
                 FastICA=(('num_components', 4711), ('max_iter', 6113), ('tol', 0.00762527)))


def described(c):
    """The text of an algorithm tells its current settings, and whether a correction filter is trained."""
    name = NAMES[c.index % len(NAMES)]
    s = zoo.spec(c, name, prep=True)
    o = s.build()
    d = s.data(c)
    if name in ('GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO') and c.chance(0.4):  # few columns
        k = c.int(1, 2)
        d = {a: v[:, :k] if a.startswith('x') else v for a, v in d.items()}
    fresh = c.call(f'{s}', o.to_string)
    c.ok(isinstance(fresh, str), f'{s}: text {fresh!r}')
    c.ok(fresh == s.build().to_string() or '0x' in fresh, f'{s}: equal objects are described differently')
    s.train(o, s.mats(c, d))
    p = s.predictors(d).shape[1]
    text = c.call(f'{s}', o.to_string)
    c.ok(isinstance(text, str) and text == str(o) == o.to_string(), f'{s}: text not stable')
    x = s.predictors(d)[:3]
    y = s.response(d)
    before = s.observe(o, gen.plain(x), gen.plain(y[:3]) if y is not None else None)
    str(o), o.to_string()
    after = s.observe(o, gen.plain(x), gen.plain(y[:3]) if y is not None else None)
    alike(c, after, before, f'{s}: after being described', 1e-12)
    if name in ('GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
        c.ok(fresh != text, f'{s}: trained and untrained described alike')
        c.ok(o.G.shape_string() in text, f'{s}: {text!r} does not tell the shape {p}x{p}')
        o.reset()
        c.ok(o.to_string() == fresh, f'{s}: described as trained after a reset')
    elif s.pls and name not in ('PRM', 'CCARegression'):
        c.ok(type(o).__name__ in text, f'{s}: {text!r} does not name the class')
        o.num_components = 4711
        c.ok('4711' in o.to_string(), f'{s}: {o.to_string()!r} does not tell the components')
        seen = set()
        for t in zoo.PREP:
            o.preprocessing_type = t
            seen.add(o.to_string())
        c.ok(len(seen) == 3, f'{s}: the text does not tell the preprocessing')
    elif name in DISPLAYED:
        c.ok(type(o).__name__ in text, f'{s}: {text!r} does not name the class')
        for k, v in DISPLAYED[name]:
            setattr(o, k, v)
            c.ok(str(v) in o.to_string(), f'{s}: {o.to_string()!r} does not tell {k}')
    c.sig('described', repr(s), p)
    c.ev('description:' + name)


SCENARIOS = [('models', models, 1360, 20400), ('transformations', transformations, 1440, 24000),
             ('matrices', matrices, 3000, 40000), ('filters', filters, 1500, 15000), ('described', described, 340, 3400)]
