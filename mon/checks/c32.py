"""C32: leak monitor - live objects, memory, files, threads and executed lines over hundreds of repetitions."""
import copy
import gc
import io
import logging
import os
import pickle
import sys
import tempfile
import threading
import tracemalloc
import weakref

import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.core.matrix import Matrix, factory, helper
from wai.ma.filter import Downsample, Equidistance

from .. import common, gen, trafo, zoo
from ..common import arr

ROUNDS = 150  # longer than any cache of a sensible fixed size takes to fill
RULE = (f'one kind of work repeated {3 * ROUNDS} times on ever new data (with new objects or one and the same, refused '
        'calls included), with counts of live objects of the library, allocated memory, open files, threads, loggers '
        'and executed lines of a probe compared between the later thirds; and weak references to everything handed in '
        'or out, which have to die with their owner; distinct: different (work, parameters, data)')
ASSUMPTIONS = ['a growth of less than half an object or 400 bytes per repetition is not a leak',
               'garbage cycles are collected before counting',
               'the probe may execute up to half as many lines more than before']
HOME = os.path.join(os.path.abspath(common.SRC), 'wai', 'ma') + os.sep
TOOL = 4
LINES = {'on': False, 'n': 0}


def _line(code, line):
    if not code.co_filename.startswith(HOME):
        return sys.monitoring.DISABLE
    if LINES['on']:
        LINES['n'] += 1


def worker_init():
    m = sys.monitoring
    m.use_tool_id(TOOL, 'verif')
    m.register_callback(TOOL, m.events.LINE, _line)


def lines(fn):
    m = sys.monitoring
    m.set_events(TOOL, m.events.LINE)
    LINES['on'], LINES['n'] = True, 0
    try:
        fn()
    except Exception:
        pass
    finally:
        LINES['on'] = False
        m.set_events(TOOL, 0)
    return LINES['n']


def tally():
    gc.collect()
    live = sum(1 for o in gc.get_objects() if str(type(o).__module__).startswith('wai.ma'))
    return dict(objects=live, memory=tracemalloc.get_traced_memory()[0], files=len(os.listdir('/proc/self/fd')),
                threads=threading.active_count(), loggers=len(logging.root.manager.loggerDict),
                handlers=len(logging.root.handlers), modules=len(sys.modules))


SLACK = dict(objects=ROUNDS // 2, memory=400 * ROUNDS, files=2, threads=0, loggers=ROUNDS // 4, handlers=2, modules=20)


def quietly(fn):
    try:
        return fn()
    except common.NonTermination:
        raise
    except Exception:
        return None


# ---- kinds of work: a function of the repetition, and a probe -------------------------------------------------------
def model_work(c):
    name = (zoo.PLS_NAMES + zoo.OTHER_NAMES)[c.index % 17]
    s = zoo.spec(c, name, prep=True)
    if 'max_iter' in s.params or name in ('PRM', 'SparsePLS', 'KernelPLS', 'NIPALS', 'FastICA'):
        s.params['max_iter'] = 5
    p = c.int(4, 6)
    pool = [s.data(c, n=c.int(10, 16), p=p) for _ in range(6)]
    keep = s.build() if c.chance(0.5) else None
    fails = c.chance(0.3)

    def work(i):
        d = pool[i % len(pool)]
        o = keep or s.build()
        m = {k: Matrix(v * (1 + 1e-3 * (i + 1))) for k, v in d.items()}
        if fails and i % 2:
            k = list(m)[-1]
            m[k] = Matrix(m[k].data[:-1].copy()) if i % 4 == 1 else Matrix(m[k].data * np.nan)
        quietly(lambda: s.train(o, m))
        q = Matrix(s.predictors(d)[:3] + 0.01 * i)
        quietly(lambda: s.query(o, q, Matrix(d['y'][:3].copy()) if name == 'CCAFilter' else None))
        quietly(lambda: s.exposed(o))
        if i % 5 == 0:
            copy.deepcopy(o)
        if i % 7 == 0:
            quietly(lambda: pickle.loads(pickle.dumps(o)))
        if i % 11 == 0 and name != 'DIPLS':
            o.reset()

    def probe():
        o = keep if keep is not None and name != 'DIPLS' else s.build()
        s.train(o, {k: Matrix(v.copy()) for k, v in pool[0].items()})
        s.query(o, Matrix(s.predictors(pool[0])[:3].copy()))
    return f'{s}{" one object" if keep else ""}{" failing too" if fails else ""}', work, probe, name


def trafo_work(c):
    name = trafo.NAMES[c.index % len(trafo.NAMES)]
    t = trafo.spec(c, name)
    a = trafo.data(c, name)
    if name == 'PowerTransformer':
        a = a[:, :2]
    keep = t.build() if c.chance(0.5) else None
    slow = name in ('PowerTransformer', 'QuantileTransformer')
    a = a[:12]

    def work(i):
        o = keep or t.build()
        x = Matrix(a * (1 + 1e-3 * (i + 1)))
        if i % (10 if slow else 2) == 0:
            o.reset()
        quietly(lambda: o.transform(x))
        quietly(lambda: o.inverse_transform(x))
        if i % 3 == 0:
            quietly(lambda: o.transform(Matrix(a[:, :1] * np.nan)))
            quietly(lambda: o.get_serialised_state())
        if i % 5 == 0:
            copy.deepcopy(o)

    def probe():
        o = keep or t.build()
        o.reset()
        o.transform(Matrix(a.copy()))
    return f'{t}{" one object" if keep else ""}', work, probe, name


def matrix_work(c):
    n = c.int(6, 12)
    a = gen.well_conditioned(c, n, n)
    keep = Matrix(a.copy()) if c.chance(0.4) else None
    kinds = [k for k in ('decompositions', 'arithmetic', 'selection', 'factories', 'text', 'copies', 'statistics', 'refusals',
                         'filters', 'state') if c.chance(0.5)] or ['decompositions']
    tmp = tempfile.mkdtemp(prefix='c32')

    def work(i):
        m = keep if keep is not None else Matrix(a * (1 + 1e-3 * (i + 1)))
        m.set(0, 0, 1.0 + 0.01 * i)
        k = Matrix(a[::-1] + 0.1 * i)
        if 'decompositions' in kinds:
            for f in ('get_eigenvalues', 'get_eigenvectors', 'svd_U', 'svd_S', 'svd_V', 'inverse', 'pseudo_inverse',
                      'get_singular_values', 'get_dominant_eigenvector'):
                quietly(getattr(m, f))
            quietly(lambda: helper.solve(m, k))
        if 'arithmetic' in kinds:
            for f in ('add', 'sub', 'mul', 'mul_elementwise', 'div_elementwise'):
                getattr(m, f)(k)
            m.transpose(), m.pow_elementwise(2), m.sum(0), m.mean(1), m.normalized()
        if 'selection' in kinds:
            m.get_row(1), m.get_column(2), m.head(2), m.get_sub_matrix([0, 2], [1, 3])
            m.concat_along_rows(k), m.concat_along_columns(k), m.which(lambda v: v > 0)
        if 'factories' in kinds:
            factory.randn(9, 9, i), factory.zeros(9, 9), factory.eye(9), factory.filled(9, 9, 1.5 * i)
        if 'text' in kinds:
            f = os.path.join(tmp, 'm.csv')
            helper.write(m, f, bool(i % 2), ',', -1)
            quietly(lambda: helper.read(f, bool(i % 2), ','))
            quietly(lambda: helper.read(f, True, 'x;'))
            quietly(lambda: helper.read(os.path.join(tmp, 'none'), True, ','))
            quietly(lambda: helper.write(m, os.path.join(tmp, 'no', 'dir'), True, ',', 6))
            helper.to_string(m), str(m)
            with open(f, 'w') as g:
                g.write('1,2\n3\nx,y\n')
            quietly(lambda: helper.read(f, False, ','))
        if 'copies' in kinds:
            m.copy(), copy.deepcopy(m), copy.copy(m), pickle.loads(pickle.dumps(m))
        if 'statistics' in kinds:
            helper.column_means(m), helper.column_stdevs(m), helper.row_means(m), helper.equal(m, k)
        if 'refusals' in kinds:
            w = Matrix(np.zeros((3, 2)))
            for f in ('add', 'mul', 'vector_dot', 'concat_along_rows'):
                quietly(lambda: getattr(m, f)(w))
            quietly(lambda: m.get(99, 99))
            quietly(lambda: Matrix(np.full((9, 9), np.nan)).get_eigenvalues())
        if 'filters' in kinds:
            d, e = Downsample(), Equidistance(3 + i % 40)
            d.start_index, d.step = 0, 1 + i % 3
            quietly(lambda: MultiFilter([e, d]).transform(m))
        if 'state' in kinds:
            m.get_serialised_state()
            f = os.path.join(tmp, 'state')
            quietly(lambda: m.serialise_to_file(f)) if hasattr(m, 'serialise_to_file') else m.serialise_state(io.BytesIO())

    def probe():
        m = Matrix(a.copy())
        m.get_eigenvalues(), m.inverse(), m.mul(m), helper.to_string(m), helper.column_means(m), m.copy()
    return f'{kinds}{" on one matrix" if keep is not None else ""}', work, probe, '+'.join(kinds), tmp


def repeat(c, make):
    made = make(c)
    what, work, probe, name = made[:4]
    tracemalloc.start()
    try:
        for i in range(3):
            work(i)
        first = lines(probe)
        marks = []
        k = 3
        for _ in range(3):
            for _ in range(ROUNDS):
                work(k)
                k += 1
            marks.append(tally())
        a, b = marks[1], marks[2]
        over = [x for x in a if b[x] - a[x] > SLACK[x]]
        if over:  # once more, before anything is said
            for _ in range(2 * ROUNDS):
                work(k)
                k += 1
            d = tally()
            over = [x for x in over if d[x] - b[x] > 2 * SLACK[x]]
        c.checks += len(a)
        c.ok(not over, f'{what}: {", ".join(over)} grow with every repetition: {marks[0]}, {a}, {b} after {ROUNDS} each')
        last = lines(probe)
        c.ok(last <= 1.5 * first + 100, f'{what}: a call that took {first} lines takes {last} after {k} repetitions')
    finally:
        tracemalloc.stop()
        if len(made) > 4:
            import shutil
            shutil.rmtree(made[4], ignore_errors=True)
    c.ev('repetitions', k)
    c.ev('work:' + name)
    c.sig(what, first, b['memory'])
    c.sample({'work': what, 'tallies': marks, 'probe lines': [first, last]})


def models(c):
    repeat(c, model_work)


def transformations(c):
    repeat(c, trafo_work)


def matrices(c):
    repeat(c, matrix_work)


def release(c):
    """Everything handed in or out dies with the last reference to it and to its owner."""
    refs = []

    def watch(label, o):
        try:
            refs.append((label, weakref.ref(o)))
        except TypeError:
            if isinstance(o, Matrix) and isinstance(o.data, np.ndarray):
                refs.append((label, weakref.ref(o.data)))
        return o

    def use():
        kind = c.pick(['model', 'model', 'transformation', 'matrix', 'filter'])
        if kind == 'model':
            s = zoo.spec(c, prep=True)
            d = s.data(c)
            m = {k: watch(f'training {k}', gen.plain(v)) for k, v in d.items()}
            for k, v in m.items():
                watch(f'array of training {k}', v.data)
            o = watch('model', s.build())
            for k in s.makers:
                watch('part ' + k, getattr(o, k))
            if c.chance(0.2):
                k = list(m)[-1]
                m[k] = watch('bad ' + k, gen.plain(d[k][:-1]))
            quietly(lambda: s.train(o, m))
            q = watch('query', gen.plain(s.predictors(d)[:3]))
            for k, v in (quietly(lambda: s.query(o, q, gen.plain(d['y'][:3]) if s.name == 'CCAFilter' else None)) or {}).items():
                watch('answer ' + k, v)
            for k, v in (quietly(lambda: s.exposed(o)) or {}).items():
                if v is not None:
                    watch('exposed ' + k, v)
            if c.chance(0.3):
                watch('copy', copy.deepcopy(o))
            return repr(s)
        if kind == 'transformation':
            t = trafo.spec(c)
            o, x = watch('transformation', t.build()), watch('data', gen.plain(trafo.data(c, t.name)))
            watch('array of data', x.data)
            y = quietly(lambda: o.transform(x))
            if y is not None:
                watch('result', y)
                quietly(lambda: watch('inverse', o.inverse_transform(y)))
            quietly(lambda: watch('refused', o.transform(gen.plain(np.full((2, 2), np.inf)))))
            return repr(t)
        if kind == 'filter':
            e, d = watch('equidistance', Equidistance(c.int(2, 9))), watch('downsample', Downsample())
            f = watch('chain', MultiFilter([e, d]))
            x = watch('data', gen.plain(c.rng.normal(size=(4, 7))))
            watch('result', f.transform(x))
            return 'filters'
        n = c.int(2, 7)
        m = watch('matrix', gen.plain(gen.well_conditioned(c, n, n)))
        watch('array', m.data)
        for f in ('get_eigenvalues', 'get_eigenvectors', 'svd_U', 'inverse', 'transpose', 'copy', 'pseudo_inverse', 'abs',
                  'diag', 'sqrt'):
            if c.chance(0.6):
                r = quietly(getattr(m, f))
                if isinstance(r, Matrix):
                    watch(f, r)
        quietly(lambda: m.add(Matrix(np.zeros((1, 9)))))
        watch('text', helper.read(io.StringIO(helper.to_string(m)), True, '\t')) if c.chance(0.3) else None
        return f'matrix of {n}'
    before = len(os.listdir('/proc/self/fd'))
    what = use()
    gc.collect()
    for label, r in refs:
        o = r()
        if o is not None:
            holders = [type(h).__name__ for h in gc.get_referrers(o) if h is not refs and not hasattr(h, 'f_code')][:4]
            c.fail(f'{what}: the {label} is still alive after its last use, held by {holders}')
    c.checks += len(refs)
    after = len(os.listdir('/proc/self/fd'))
    c.ok(after <= before, f'{what}: {after - before} files left open')
    c.ev('references that died', len(refs))
    c.sig(what, len(refs), c.index)


SCENARIOS = [('models', models, 34, 340), ('transformations', transformations, 24, 240), ('matrices', matrices, 24, 240),
             ('release', release, 800, 12000)]
