"""C28: threads inside the library under a controlled scheduler, each compared with the same work done alone."""
import io
import os
import re
import shutil
import tempfile
from functools import partial

import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.core import utils
from wai.ma.core.matrix import Matrix, factory, helper
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation.kernel import PolyKernel, RBFKernel

from .. import gen, trafo, zoo
from ..sched import Scheduler

RULE = ('two to four threads that train, query, transform, decompose, read, write and serialise - each its own objects, or '
        'one trained model, fitted transformation or unchanging matrix together - under interleavings the scheduler draws '
        'line by line; distinct: different (work, interleaving)')
ASSUMPTIONS = ['the baton is handed over between lines of the library only; numerical routines run to their end',
               'fitting, training and updating one and the same object from several threads at once is outside the domain, '
               'row normalisation, which learns from every matrix, included',
               'answers are compared up to a relative 1e-9 (storage alignment may change the rounding)']
NAMES = zoo.PLS_NAMES + zoo.OTHER_NAMES


def outcome(f):
    try:
        return 'gave', f()
    except Exception as e:
        return 'raised', e


def judge(c, got, want, what):
    if want[0] == 'raised':
        c.ok(got[0] == 'raised', f'{what}: alone {type(want[1]).__name__}, among threads an answer')
        c.ok(type(got[1]) is type(want[1]), f'{what}: alone {want[1]!r}, among threads {got[1]!r}')
        c.ev('refused alike')
        return
    c.ok(got[0] == 'gave', f'{what}: raised {got[1]!r} among threads only')
    a, b = want[1], got[1]
    c.ok(sorted(a) == sorted(b), f'{what}: gave {sorted(b)} instead of {sorted(a)}')
    for k, e in a.items():
        if isinstance(e, np.ndarray):
            fin = np.isfinite(e)
            c.close(b[k], e, f'{what} among threads: {k}', 1e-9, max(float(np.abs(e[fin]).max()), 1e-300) if fin.any() else None)
        else:
            c.ok(b[k] == e, f'{what} among threads: {k} is {b[k]!r:.200} instead of {e!r:.200}')


def out(v):
    return v.data.copy() if isinstance(v, Matrix) else v


# ---- work, as functions of nothing that build everything they touch ------------------------------------------------
def train(c, name=None, s=None, n=None, p=None):
    name = name or c.pick(NAMES)
    if s is None:
        s = zoo.spec(c, name, prep=True)
        if name == 'SIMPLS' and c.chance(0.5):
            s.params['num_coefficients'] = c.int(1, 3)
        if name == 'FastICA':
            s.params['max_iter'] = 20
    d = s.data(c, n=n or c.int(9, 14), p=p or c.int(4, 5))
    x, y = s.predictors(d), s.response(d)
    xq = x[:3] + 0.1 * c.rng.normal(size=x[:3].shape)
    bad = c.chance(0.1) and name not in ('PCA', 'FastICA', 'DIPLS')
    if bad:
        k = list(d)[1]
        d[k] = d[k][:-1]
    state = name == 'SIMPLS'

    def work():
        o = s.build()
        msg = s.train(o, {k: gen.plain(v) for k, v in d.items()})
        r = {'message': msg, 'trained': o.is_initialised(), 'text': re.sub(r'0x[0-9a-f]+', '', str(o))}
        if o.is_initialised():
            r.update(s.observe(o, gen.plain(xq), gen.plain(y[:3]) if y is not None else None))
            if state:
                b = io.BytesIO()
                o.serialise_state(b)
                r['state'] = b.getvalue()
        return r
    return f'{s} on {[v.shape for v in d.values()]}', work


def transform(c):
    t = trafo.spec(c)
    a = trafo.data(c, t.name, n=c.int(6, 10), p=None if t.name == 'MSC' else c.int(10, 12))
    b = trafo.data(c, t.name, like=a, n=c.int(1, 4))

    def work():
        o = t.build()
        o.configure(gen.plain(a))
        r = {'first': out(o.transform(gen.plain(b))), 'second': out(o.transform(gen.plain(a)))}
        if t.invertible(o):
            r['back'] = out(o.inverse_transform(gen.plain(r['second'])))
        if hasattr(o, 'serialise_state'):
            h = io.BytesIO()
            o.serialise_state(h)
            r['state'] = h.getvalue()
        return r
    return repr(t), work


def compute(c):
    n = c.int(2, 5)
    a = c.rng.normal(size=(n, n))
    if c.chance(0.5):
        a = a + a.T
    b = c.rng.normal(size=(n, c.int(1, 4)))
    ops = [c.pick(['svd', 'eigen', 'inverse', 'product', 'set', 'row', 'stats', 'each', 'text', 'solve', 'sort', 'concat'])
           for _ in range(c.int(2, 6))]
    seed = c.int(0, 10 ** 6)

    def work():
        m, r = Matrix(a.copy()), {}
        for i, op in enumerate(ops):
            if op == 'svd':
                r[f'{i} U'], r[f'{i} S'], r[f'{i} V'] = out(m.svd_U()), out(m.svd_S()), out(m.svd_V())
            elif op == 'eigen':
                v = np.asarray(m.get_eigenvalues_sorted_descending().data)
                r[f'{i} eigen'] = np.hstack([np.real(v), np.imag(v)])
                if np.allclose(m.data, m.data.T):
                    r[f'{i} dominant'] = out(m.get_dominant_eigenvector())
                    r[f'{i} vectors'] = out(m.get_eigenvectors(True))
            elif op == 'inverse':
                r[f'{i} inverse'], r[f'{i} pinv'] = out(m.inverse()), out(m.pseudo_inverse())
            elif op == 'product':
                r[f'{i} product'] = out(m.mul(Matrix(b)).add(1.5).mul_elementwise(Matrix(b)))
            elif op == 'set':
                m.set(i % n, (i + 1) % n, 3.5 + i)
            elif op == 'row':
                m.set_row(i % n, Matrix(np.arange(1.0, n + 1).reshape(1, n)))
                m.add_by_vector_modify(Matrix(np.full((1, n), 0.25)))
            elif op == 'stats':
                r[f'{i} means'], r[f'{i} stdevs'] = out(helper.column_means(m)), out(helper.row_stdevs(m))
            elif op == 'each':
                r[f'{i} each'] = out(m.apply_elementwise(lambda v: v * v + i))
                r[f'{i} which'] = m.which(lambda v: v > 0)
            elif op == 'text':
                r[f'{i} text'] = str(m) + helper.to_string(m)
            elif op == 'solve':
                r[f'{i} solve'] = out(helper.solve(m, Matrix(b)))
            elif op == 'sort':
                v = [float(x) for x in m.data.ravel()]
                r[f'{i} sorted'] = [v[k] for k in utils.sort(v)]
            else:
                r[f'{i} concat'] = out(helper.multi_concat(0, m, factory.randn(2, n, seed), factory.rand(1, n, seed + 1)))
            r[f'{i} matrix'] = out(m)
        return r
    return f'matrix work {ops}', work


def text(c):
    n, p = c.int(1, 4), c.int(1, 4)
    a = c.rng.normal(size=(n, p)) * c.pick([1.0, 1e-6, 1e9])
    sep, header, dec = c.pick([',', ';', '\t', '||']), c.chance(0.5), c.pick([-1, 3])
    spoil = c.chance(0.2)

    def work():
        h = io.StringIO()
        helper.write(Matrix(a.copy()), h, header, sep, dec)
        s = h.getvalue()
        if spoil:
            s = s + sep.join(['x'] + ['1'] * (p - 1)) + '\n'
        return {'text': s, 'read': out(helper.read(io.StringIO(s), header, sep))}
    return f'text of {a.shape}', work


def kernels(c):
    x, y = c.rng.normal(size=(c.int(1, 4), 3)), c.rng.normal(size=(c.int(1, 3), 3))
    g, d = c.pick([0.2, 1.5, np.nan]), c.int(1, 4)
    rbf = c.chance(0.5)

    def work():
        k = RBFKernel() if rbf else PolyKernel()
        k.gamma = g
        if not rbf:
            k.degree = d
        return {'one': out(k.apply_matrix(gen.plain(x))), 'two': out(k.apply_matrix(gen.plain(x), gen.plain(y))), 'text': str(k)}
    return f'kernel {"rbf" if rbf else "poly"} {g} {d}', work


def resample(c):
    a = c.rng.normal(size=(c.int(1, 3), c.int(4, 9)))
    n, step = c.int(2, 8), c.int(1, 3)

    def work():
        f = Downsample()
        f.step = step
        return {'chain': out(MultiFilter([f, Equidistance(n)]).transform(gen.plain(a)))}
    return f'chain {step} {n} of {a.shape}', work


WORK = (train, train, train, transform, transform, compute, compute, text, kernels, resample)


def together(c, jobs, what, twins=None):
    """jobs: (description, work); the same work (or that of the twins) is done alone, before or after."""
    twins = twins or [w for _, w in jobs]
    s = Scheduler(c.rng, c.pick([0.05, 0.2, 0.5, 0.8, 1.0]))
    if c.chance(0.5):
        alone = [outcome(w) for w in twins]
        got = s.run([w for _, w in jobs])
    else:
        got = s.run([w for _, w in jobs])
        alone = [outcome(w) for w in twins]
    for (d, _), g, w in zip(jobs, got, alone):
        judge(c, g, w, f'{what}: {d}')
    c.ev('threads', len(jobs))
    c.ev('handovers inside library code', s.switches)
    c.ev('library lines watched', s.lines)
    if s.free:
        c.ev('ran free')
    c.sig(what, [d for d, _ in jobs], s.trail)
    return s


def separate(c):
    """Different objects in every thread."""
    jobs = [c.pick(WORK)(c) for _ in range(c.int(2, 3))]
    s = together(c, jobs, 'separate objects')
    c.sample({'jobs': [d for d, _ in jobs], 'handovers': s.switches})


def same_kind(c):
    """The same class with other parameters and data in every thread."""
    maker = train if c.chance(0.5) else c.pick(WORK)
    if maker is train:
        name = c.pick(NAMES)
        if c.chance(0.6):  # same settings and shapes: the threads can run the same lines at the same time
            s = zoo.spec(c, name, prep=True)
            if name == 'SIMPLS' and c.chance(0.5):
                s.params['num_coefficients'] = c.int(1, 3)
            if name == 'FastICA':
                s.params['max_iter'] = 20
            n, p = c.int(9, 14), c.int(4, 5)
            jobs = [train(c, name, s, n, p) for _ in range(2)]
        else:
            jobs = [train(c, name) for _ in range(2)]
    else:
        jobs = [maker(c) for _ in range(c.int(2, 4))]
    together(c, jobs, 'same kind')


def model(c):
    """One trained model asked by several threads."""
    name = c.pick([n for n in NAMES if n not in ('PCA', 'FastICA')])
    s = zoo.spec(c, name, prep=True)
    d = s.data(c, n=c.int(9, 14), p=c.int(4, 5))
    x, y = s.predictors(d), s.response(d)
    o, twin = s.build(), s.build()
    for m in (o, twin):
        msg = c.call(f'training {s}', s.train, m, {k: gen.plain(v) for k, v in d.items()})
        c.ok(msg is None, f'{s}: reported {msg!r}')
    jobs, twins = [], []
    for i in range(c.int(2, 3)):
        xq = x[c.perm(len(x))[:c.int(1, 4)]] + c.uni(0, 0.3)

        def work(xq=xq, o=o):
            r = {k: out(v) for k, v in s.query(o, gen.plain(xq), gen.plain(y[:2]) if y is not None else None).items()}
            r.update({'exposed ' + k: out(v) for k, v in s.exposed(o).items()})
            r['text'] = re.sub(r'0x[0-9a-f]+', '', str(o))
            r['again'] = out(o.transform(gen.plain(xq)))
            return r
        jobs.append((f'query {i} of {s}', work))
        twins.append(partial(work, o=twin))
    together(c, jobs, 'one model', twins)
    c.ev(f'shared {name}')


def fitted(c):
    """One fitted transformation used by several threads."""
    t = trafo.spec(c, c.pick([n for n in trafo.NAMES if n != 'RowNorm']))
    a = trafo.data(c, t.name, n=c.int(6, 10), p=None if t.name == 'MSC' else c.int(10, 12))
    o, twin = t.build(), t.build()
    o.configure(gen.plain(a))
    twin.configure(gen.plain(a))
    jobs, twins = [], []
    for i in range(c.int(2, 3)):
        b = trafo.data(c, t.name, like=a, n=c.int(1, 4))

        def work(b=b, o=o):
            r = {'answer': out(o.transform(gen.plain(b)))}
            if t.invertible(o):
                r['back'] = out(o.inverse_transform(gen.plain(r['answer'])))
            return r
        jobs.append((f'use {i} of {t}', work))
        twins.append(partial(work, o=twin))
    together(c, jobs, 'one transformation', twins)
    c.ev(f'shared {t.name}')


def tools(c):
    """One kernel or one chain of filters used by several threads, and one kernel in several models."""
    which = c.pick(['kernel', 'chain', 'models'])

    def kernel():
        k = RBFKernel() if rbf else PolyKernel()
        k.gamma = g
        if not rbf:
            k.degree = deg
        return k
    rbf, g, deg = c.chance(0.5), c.pick([0.2, 1.5, np.nan]), c.int(1, 3)
    step, n = c.int(1, 3), c.int(2, 8)

    def chain():
        f = Downsample()
        f.step = step
        return MultiFilter([f, Equidistance(n)])
    o, twin = (chain(), chain()) if which == 'chain' else (kernel(), kernel())
    jobs, twins = [], []
    for i in range(c.int(2, 3)):
        p = c.int(4, 9) if which == 'chain' else c.int(1, 4)
        a, b = c.rng.normal(size=(c.int(2, 5), p)), c.rng.normal(size=(c.int(1, 3), p))
        if which == 'models':
            a = c.rng.normal(size=(c.int(8, 11), p))
        y = a[:, :1] + a[:, -1:] ** 2

        def work(a=a, b=b, y=y, o=o):
            if which == 'chain':
                return {'chain': out(o.transform(gen.plain(a)))}
            if which == 'kernel':
                return {'self': out(o.apply_matrix(gen.plain(a))), 'cross': out(o.apply_matrix(gen.plain(a), gen.plain(b))),
                        'gamma': str(o.gamma)}
            m = zoo.CLASSES['KernelPLS']()
            m.num_components, m.kernel = 2, o
            r = {'message': m.initialize(gen.plain(a), gen.plain(y))}
            r['predictions'] = out(m.predict(gen.plain(b)))
            return r
        jobs.append((f'{which} {i}', work))
        twins.append(partial(work, o=twin))
    together(c, jobs, f'one {which}', twins)
    c.ev(f'shared {which}')


READS = ('svd', 'eigen', 'inverse', 'product', 'rows', 'text', 'state', 'reduce')


def matrix(c):
    """One matrix read by several threads: what it remembers of its decompositions must not show."""
    n = c.int(2, 5)
    a = c.rng.normal(size=(n, n))
    sym = c.chance(0.6)
    if sym:
        a = a + a.T
    m = Matrix(a.copy())
    jobs = []
    twins = []
    for i in range(c.int(2, 4)):
        ops = [c.pick(READS) for _ in range(c.int(1, 4))]

        def work(ops=ops, w=m):
            r = {}
            for k, op in enumerate(ops):
                if op == 'svd':
                    r[f'{k} U'], r[f'{k} S'], r[f'{k} V'] = out(w.svd_U()), out(w.get_singular_values()), out(w.svd_V())
                elif op == 'eigen':
                    v = np.asarray(w.get_eigenvalues_sorted_ascending().data)
                    r[f'{k} values'] = np.hstack([np.real(v), np.imag(v)])
                    if sym:
                        r[f'{k} vectors'] = out(w.get_eigenvectors_sorted_descending())
                elif op == 'inverse':
                    r[f'{k} inverse'] = out(w.inverse())
                elif op == 'product':
                    r[f'{k} product'] = out(w.mul(w.transpose()).sub(w))
                elif op == 'rows':
                    r[f'{k} rows'] = out(w.get_rows((0, n - 1)).concat_along_rows(w.get_row(n - 1)))
                elif op == 'text':
                    r[f'{k} text'] = str(w)
                elif op == 'state':
                    h = io.BytesIO()
                    w.serialise_state(h)
                    r[f'{k} state'] = h.getvalue()
                else:
                    r[f'{k} reduce'] = [float(w.norm2()), float(w.median()), bool(w.contains_NaN()), out(w.mean(0)).tolist()]
            return r
        jobs.append((f'reads {ops}', work))
        twins.append(partial(work, w=Matrix(a.copy())))
    together(c, jobs, 'one matrix', twins)
    c.same(m, a, 'the matrix itself')


def files(c):
    """Several threads that save into one new directory, and read their own files again."""
    d = tempfile.mkdtemp(prefix='verif-c28-')
    try:
        jobs = []
        where = os.path.join(d, 'new', 'deeper')
        for i in range(c.int(2, 4)):
            a = c.rng.normal(size=(c.int(1, 4), c.int(1, 4)))

            def work(i=i, a=a):
                f = os.path.join(where, f'{i}.bin')
                g = os.path.join(d, f'{i}.csv')
                m = Matrix(a.copy())
                m.save_state(f)
                helper.write(m, g, False, ',', -1)
                with open(f, 'rb') as h:
                    state = h.read()
                return {'state': state, 'read': out(helper.read(g, False, ','))}
            jobs.append((f'file {i}', work))
        s = Scheduler(c.rng, c.pick([0.1, 0.3, 0.6]))
        got = s.run([w for _, w in jobs])
        shutil.rmtree(where)
        for (n, w), g in zip(jobs, got):
            judge(c, g, outcome(w), f'saving: {n}')
        c.ev('threads', len(jobs))
        c.ev('handovers inside library code', s.switches)
        c.sig('files', [n for n, _ in jobs], s.trail)
    finally:
        shutil.rmtree(d, ignore_errors=True)


SCENARIOS = [('separate', separate, 1200, 10000), ('same kind', same_kind, 2200, 16000), ('model', model, 800, 8000),
             ('fitted', fitted, 500, 5000), ('matrix', matrix, 800, 8000), ('tools', tools, 400, 4000), ('files', files, 100, 1000)]
