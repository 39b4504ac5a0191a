"""Runs a battery of work in a process set up as told (JSON on the command line) and writes down all the outcomes.

Used by C31: the same battery in differently set up processes has to have the same outcomes."""
import importlib
import json
import os
import re
import sys


def quiet_state():
    """Process-wide settings that importing or using the library has no business with."""
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings

    import numpy as np
    s = np.random.get_state()
    return dict(floating_point_errors=np.geterr(), warning_filters=[repr(f[:4]) for f in warnings.filters],
                numpy_random=(s[0], s[1].tobytes()) + tuple(s[2:]), random=random.getstate(), cwd=os.getcwd(),
                recursion_limit=sys.getrecursionlimit(), print_options=repr(np.get_printoptions()),
                environment=dict(os.environ), path=list(sys.path), locale=locale.setlocale(locale.LC_ALL),
                log_handlers=[repr(type(h)) for h in logging.root.handlers], log_level=logging.root.level,
                log_disabled=logging.root.manager.disable, threads=threading.active_count(),
                excepthook=repr(sys.excepthook), signals=[repr(signal.getsignal(k)) for k in (2, 15)],
                switch=sys.getswitchinterval(), stdout=id(sys.stdout), stderr=id(sys.stderr))


def apply(settings):
    """Settings made inside the process, before the library is imported."""
    import decimal
    import gc
    import locale
    import logging
    import random
    import threading
    import warnings

    import numpy as np
    import scipy.linalg  # noqa: F401
    import sklearn.preprocessing  # noqa: F401
    for s in settings:
        if s == 'print options':
            np.set_printoptions(precision=2, threshold=5, suppress=True, linewidth=20, edgeitems=1, sign='+', nanstr='?',
                                infstr='!', floatmode='fixed')
        elif s == 'numpy errors':
            np.seterr(all='ignore')
        elif s == 'numpy warnings':
            np.seterr(all='warn')
        elif s == 'all warnings':
            warnings.simplefilter('always')
        elif s == 'no warnings':
            warnings.simplefilter('ignore')
        elif s == 'random states':
            random.seed(12345)
            np.random.seed(54321)
        elif s == 'decimal':
            decimal.getcontext().prec = 3
        elif s == 'locale':
            locale.setlocale(locale.LC_ALL, '')
        elif s == 'eager gc':
            gc.set_threshold(1, 1, 1)
        elif s == 'no gc':
            gc.disable()
        elif s == 'no logging':
            logging.disable(logging.CRITICAL)
        elif s == 'full logging':
            logging.basicConfig(level=logging.DEBUG, stream=open(os.devnull, 'w'))
        elif s == 'no streams':
            sys.stdout = sys.stderr = sys.stdin = None
        elif s == 'fast switching':
            sys.setswitchinterval(1e-6)
        elif s == 'busy thread':
            def spin():
                k = 0
                while True:
                    k = (k * 3 + 1) % 1000003
            threading.Thread(target=spin, daemon=True).start()
        elif s == 'deep stack':
            sys.setrecursionlimit(5000)
        elif s == 'unseeded':
            random.seed()
            np.random.seed()
        elif s == 'trace':
            sys.settrace(lambda *a: None)
        elif s == 'umask':
            os.umask(0o027)


def outcome(fn):
    import numpy as np
    from wai.ma.core.matrix import Matrix
    try:
        r = fn()
    except Exception as e:
        return 'raised', [k.__name__ for k in type(e).__mro__ if k.__module__ == 'builtins'][0]
    if isinstance(r, Matrix):
        r = r.data
    if isinstance(r, np.ndarray):
        return 'array', np.array(r)
    if isinstance(r, (float, np.floating)):
        return 'array', np.array([float(r)])
    if isinstance(r, dict):
        return 'arrays', {k: np.array(v.data if isinstance(v, Matrix) else v) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return 'list', [str(x) for x in r]
    return 'value', r if isinstance(r, (bytes, int, bool, type(None))) else re.sub(r' at 0x[0-9a-f]+', '', str(r))


def model(c, say):
    import numpy as np

    from . import gen, zoo
    s = zoo.spec(c, prep=True)
    data = s.data(c)
    m = {k: gen.plain(v) for k, v in data.items()}
    o = s.build()
    say(f'{s} described', lambda: str(o))
    say(f'{s} defaults', lambda: [f'{k}={getattr(o, k)}' for k in sorted(s.params)])
    if s.name not in ('PCA', 'FastICA'):
        say(f'{s} untrained', lambda: o.transform(gen.plain(s.predictors(data))))
    say(f'{s} training', lambda: s.train(o, m))
    y = s.response(data)
    say(f'{s} trained', lambda: s.observe(o, gen.plain(s.predictors(data)[:5]), gen.plain(y[:5]) if y is not None else None))
    if s.pls:
        say(f'{s} names', lambda: o.get_matrix_names())
        say(f'{s} unknown matrix', lambda: o.get_matrix('no such'))
    if hasattr(o, 'serialise_state'):
        say(f'{s} state', o.get_serialised_state)
    bad = c.pick(['rows', 'nothing', 'half', 'nan', 'zero rows'])
    x = s.predictors(data)
    o2 = s.build()
    if y is not None and s.name != 'DIPLS':
        args = {'rows': lambda: (gen.plain(x), gen.plain(y[:-1])), 'nothing': lambda: (None, None),
                'half': lambda: (gen.plain(x), None), 'nan': lambda: (gen.plain(x * np.nan), gen.plain(y)),
                'zero rows': lambda: (gen.plain(x[:0]), gen.plain(y[:0]))}[bad]
        say(f'{s} {bad}', lambda: o2.initialize(*args()))
        say(f'{s} {bad} trained', lambda: o2.is_initialised())
    for k in ('num_components', 'tol', 'max_iter', 'lambda_', 'alpha', 'N', 'C', 'variance', 'kcca', 'preprocessing_type'):
        if hasattr(o, k) and c.chance(0.5):
            v = c.pick([-1, 0, -0.5, 7, 2.0])
            say(f'{s} {k}={v}', lambda: setattr(o, k, v))
            say(f'{s} {k} afterwards', lambda: [getattr(o, k), o.is_initialised() if hasattr(o, 'is_initialised') else ''])


def transformation(c, say):
    from . import gen, trafo
    t = trafo.spec(c)
    a = trafo.data(c, t.name)
    o = t.build()
    say(f'{t} inverse before', lambda: o.inverse_transform(gen.plain(a)))
    say(f'{t} state before', lambda: o.get_serialised_state())
    say(f'{t}', lambda: o.transform(gen.plain(a)))
    say(f'{t} again', lambda: o.transform(gen.plain(trafo.data(c, t.name, like=a))))
    say(f'{t} inverse', lambda: o.inverse_transform(gen.plain(a)))
    say(f'{t} described', lambda: str(type(o).__name__))
    if hasattr(o, 'get_serialised_state'):
        say(f'{t} state', lambda: o.get_serialised_state())
    for k in ('quantile_range', 'method', 'base', 'offset', 'n_quantiles', 'output_distribution', 'polynomial_order',
              'derivative_order', 'num_points', 'num_points_left', 'output_mode'):
        if hasattr(o, k) and c.chance(0.5):
            v = c.pick([-1, 0, 'x', 3, (90.0, 10.0)])
            say(f'{t} {k}={v}', lambda: setattr(o, k, v))
            say(f'{t} {k} afterwards', lambda: o.transform(gen.plain(a)))


def matrix(c, say):
    import numpy as np

    from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH
    from wai.ma.core import utils
    from wai.ma.core.matrix import Matrix, factory, helper
    from wai.ma.filter import Downsample, Equidistance
    from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

    from . import gen
    n, p = c.int(1, 9), c.int(1, 9)
    a, b = c.rng.normal(size=(n, p)), c.rng.normal(size=(c.int(1, 9), c.int(1, 9)))
    m, k = Matrix(a.copy()), Matrix(b.copy())
    seed = c.int(0, 2 ** 31)
    what = f'{a.shape} and {b.shape}'
    for name in ('add', 'sub', 'mul', 'mul_elementwise', 'div_elementwise', 'concat_along_rows', 'concat_along_columns',
                 'scale_by_row_vector', 'vector_dot'):
        say(f'{name} of {what}', lambda: getattr(m, name)(k))
    for name in ('transpose', 'inverse', 'pseudo_inverse', 'get_eigenvalues', 'get_singular_values', 'svd_U', 'norm1', 'norm2',
                 'trace', 'row_str', 'shape_string', 'is_vector', 'max', 'sqrt', 'contains_NaN', 'to_raw_copy_1D'):
        say(f'{name} of {a.shape}', lambda: getattr(m, name)())
    say('described', lambda: str(m))
    say('lines', lambda: helper.to_lines(m, True, ',', 6))
    say('text', lambda: helper.to_string(m, False, ';', 12))
    say('shortest text', lambda: helper.to_string(m, True, '\t', -1))
    say('scientific lines', lambda: helper.to_lines(m, False, ' ', c.int(0, 9), True))
    say('state', lambda: m.get_serialised_state())
    for f in (LinearKernel, PolyKernel, RBFKernel):
        say(f'{f.__name__} described', lambda: str(f()))
        say(f.__name__, lambda: f().apply_matrix(m, m))
    for f in (LogCosH, Cube, Exponential):
        say(f.__name__, lambda: dict(enumerate(f().apply(m))))
    say('randn', lambda: factory.randn(n, p, seed))
    say('rand', lambda: factory.rand(n, p, seed))
    say('cell out of range', lambda: m.get(n, p))
    say('row out of range', lambda: m.get_row(n + 3))
    say('set out of range', lambda: m.set(n, 0, 1.0))
    say('ragged', lambda: factory.create([[1.0], [2.0, 3.0]]))
    say('solve', lambda: helper.solve(m, k))
    big = Matrix(c.rng.normal(size=(40, 40)))
    say('long text', lambda: helper.to_string(big, True, ',', 8))
    say('long description', lambda: str(big))
    e = Equidistance(c.int(2, 12))
    say('equidistance', lambda: e.transform(m))
    say('equidistance 1', lambda: setattr(e, 'num_samples', 1))
    say('equidistance afterwards', lambda: e.num_samples)
    d = Downsample()
    for key, v in (('step', c.int(-1, 3)), ('start_index', c.int(-1, 4))):
        say(f'downsample {key}={v}', lambda: setattr(d, key, v))
    say('downsample', lambda: d.transform(m))
    v = [float(x) for x in c.rng.integers(0, 9, size=12)]
    say('sort', lambda: utils.sort(np.array(v)))
    path = os.path.join(os.environ['VERIF_SCRATCH'], f'm{c.index}.csv')
    say('write', lambda: helper.write(m, path, True, ',', 17))
    say('file', lambda: open(path, 'rb').read())
    say('read', lambda: helper.read(path, True, ','))


def battery(todo, seed, tier):
    from . import common
    out = {}
    for i in todo:
        c = common.Case('C31', 'battery', i, seed, tier, set())
        kind = (model, model, transformation, matrix)[i % 4]
        count = [0]

        def say(label, fn):
            count[0] += 1
            out[i, count[0]] = (label,) + outcome(fn)
        kind(c, say)
    return out


def main():
    told = json.loads(sys.argv[1])
    sys.path.insert(0, told['src'])
    sys.path.insert(0, told['verif'])
    os.environ['VERIF_SCRATCH'] = told['scratch']
    apply(told['settings'])
    before = quiet_state()
    for m in told['imports']:
        importlib.import_module(m)
    imported = quiet_state()
    changed = [k for k in before if before[k] != imported[k]]
    from mon import common, gen, trafo, zoo  # noqa: F401
    todo = list(range(told['first'], told['first'] + told['cases']))
    if 'backwards' in told['settings']:
        todo.reverse()
    if 'twice' in told['settings']:
        battery(todo[:len(todo) // 2], told['seed'] + 1, told['tier'])
    before = quiet_state()
    if 'in a thread' in told['settings']:
        import threading
        box = []
        t = threading.Thread(target=lambda: box.append(battery(todo, told['seed'], told['tier'])))
        t.start()
        t.join()
        out = box[0]
    else:
        out = battery(todo, told['seed'], told['tier'])
    after = quiet_state()
    changed += ['after use: ' + k for k in before if before[k] != after[k]]
    import pickle
    with open(os.path.join(told['scratch'], 'out.pickle'), 'wb') as f:
        pickle.dump(dict(out=out, changed=changed), f)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import mon.child
    mon.child.main()
    os._exit(0)
