"""C18: metamorphic monitor - batches split, reordered, duplicated and thinned against the answers row by row."""
import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import OutputMode
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from .. import gen, instr, ref, trafo, zoo
from ..common import Skip, arr, is_close

RULE = ('for every trained model and fitted transformation the answers to one batch are compared with those to single '
        'rows, permutations, duplications, subsets and splits of it (as differently stored matrices); distinct: '
        'different (object, parameters, data, regrouping)')
ASSUMPTIONS = ['scatter correction takes spectra as columns and is judged under C12',
               'PCA and FastICA retrain on every batch and are judged under C22 and C25',
               'agreement up to a relative error of 1e-8 of the largest answer']
MODELS = tuple(n for n in zoo.PLS_NAMES + zoo.OTHER_NAMES if n not in ('PCA', 'FastICA'))
TRAFOS = tuple(n for n in trafo.NAMES if n != 'MSC')


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def regroup(c, n):
    r = c.int(0, 5)
    if r == 0:
        return 'permutation', c.perm(n)
    if r == 1:
        return 'reversal', list(range(n))[::-1]
    if r == 2:
        return 'sample with repeats', [c.int(0, n - 1) for _ in range(c.int(1, 2 * n))]
    if r == 3:
        return 'subset', sorted(c.perm(n)[:c.int(1, n)])
    if r == 4:
        return 'repeated row', [c.int(0, n - 1)] * c.int(2, 5)
    k = c.int(0, n - 1)
    return 'tail', list(range(k, n))


def agree(d, e, circular=False, scale=None):
    if d.shape != e.shape:
        return False
    if scale is None:
        scale = np.abs(e[np.isfinite(e)]).max() if np.isfinite(e).any() else 1.0
    if is_close(d, e, 1e-8, scale):
        return True
    if circular:  # angles: equal up to a full turn
        w = np.abs(d - e)
        return bool(np.all(np.minimum(w, np.abs(w - 2 * np.pi)) <= 1e-6))
    return False


def judge(c, f, X, what, rowsout=None, circular=False, finding=None):
    """f maps an array of rows to an array of answers."""
    n = len(X)
    full = f(X)
    c.ok(full.shape[0] == n, f'{what}: {n} rows in, {full.shape[0]} out')
    if rowsout is not None:
        c.ok(full.shape[1] == rowsout, f'{what}: {full.shape[1]} columns, expected {rowsout}')
    one = np.vstack([f(X[[i]]) for i in range(n)])
    scale = np.abs(one[np.isfinite(one)]).max(initial=0) + 1e-10 * np.abs(X).max()
    if not agree(full, one, circular, scale):
        if finding is not None and finding(X, full, one):
            return
        c.fail(f'{what}: the batch of {n} rows gives {full.tolist()!r:.300} but row by row {one.tolist()!r:.300}')
    c.checks += 1
    for _ in range(2):
        kind, r = regroup(c, n)
        got = f(X[r])
        c.ev(kind)
        c.checks += 1
        if not agree(got, full[r], circular, scale):
            if finding is not None and finding(X[r], got, one[r]):
                return
            c.fail(f'{what}: {kind} {r} of a batch gives {got.tolist()!r:.300}, the batch gave '
                   f'{full[r].tolist()!r:.300}')
    if n > 1:
        k = c.int(1, n - 1)
        c.checks += 1
        both = np.vstack([f(X[:k]), f(X[k:])])
        if not agree(both, full, circular, scale) and not (finding is not None and finding(X[:k], f(X[:k]), one[:k])):
            c.fail(f'{what}: splitting the batch after row {k} changes the answers')
        c.ev('split')


def sparse_scores(c, o, what, prep):
    """Finding KF10: scores computed from the raw batch, deflated with loadings of the batch itself."""
    W = arr(o.get_matrix('W'))

    def check(X, got, _):
        E = prep(X)
        T = []
        with np.errstate(all='ignore'):
            for i in range(W.shape[1]):
                t = E @ W[:, [i]]
                T.append(t)
                E = E - t @ (E.T @ t / (t ** 2).sum()).T
        T = np.hstack(T)
        # with few rows the residual is exhausted after the first scores; what is left is rounding noise (or 0/0)
        k = min(len(np.unique(X, axis=0)), T.shape[1])
        noise = np.abs(T[:, k:][np.isfinite(T[:, k:])]).max(initial=0) if k < T.shape[1] else 0
        if is_close(got[:, :k], T[:, :k], 1e-6) and noise < 1e-6 * max(1.0, np.abs(X).max()):
            c.known('KF10', what)
            return True
        return False
    return check


def models(c):
    name = MODELS[c.index % len(MODELS)]
    s = zoo.spec(c, name, prep=True)
    data = s.data(c)
    o = s.build()
    msg = c.call(f'training of {s}', s.train, o, s.mats(c, data))
    c.ok(msg is None, f'{s}: {msg}')
    x = s.predictors(data)
    n = c.pick([2, 3, 5, 9, 24])
    X = x[[c.int(0, len(x) - 1) for _ in range(n)]] + c.pick([0.0, 0.3, 3.0]) * c.rng.normal(size=(n, x.shape[1]))
    if c.chance(0.3):
        X = x.copy()
    if c.chance(0.1):
        X[c.int(0, len(X) - 1)] = c.pick([0.0, 1e3, -50.0])
    k = s.params.get('num_components')
    if s.pls:
        q = s.q if name in zoo.MULTI else 1
        judge(c, lambda a: arr(o.predict(gen.mat(c, a))), X, f'predict of {s}', q)
        if name == 'SparsePLS' and len(X) > 1:
            judge(c, lambda a: arr(o.transform(gen.mat(c, a))), X, f'transform of {s}', k,
                  finding=sparse_scores(c, o, f'transform of {s}', ref.Prep(ref.prep_code(s.params), data['x'])))
        elif name != 'SparsePLS':
            judge(c, lambda a: arr(o.transform(gen.mat(c, a))), X, f'transform of {s}',
                  x.shape[1] if name == 'OPLS' else k)
    else:
        judge(c, lambda a: arr(o.transform(gen.mat(c, a))), X, f'transform of {s}',
              s.params['kcca'] if name == 'CCAFilter' else x.shape[1])
        if name == 'CCAFilter':
            Y = data['y'][[c.int(0, len(x) - 1) for _ in range(n)]] + c.rng.normal(size=(n, s.q))
            judge(c, lambda a: arr(o.transform_response(gen.mat(c, a))), Y, f'transform_response of {s}',
                  s.params['kcca'])
    c.sig(name, repr(s), X)
    c.ev('model:' + name)
    c.sample({'model': repr(s), 'batch': list(X.shape)})


def transformations(c):
    name = TRAFOS[c.index % len(TRAFOS)]
    t = trafo.spec(c, name)
    a = trafo.data(c, name)
    o = t.build()
    if name in trafo.FITTED or c.chance(0.5):
        c.call(f'configure of {t}', o.configure, gen.mat(c, a))
    X = trafo.data(c, name, like=a) if c.chance(0.7) else a
    mode = t.params.get('output_mode')
    circular = name == 'FFT'
    finding = None
    if name == 'FFT':
        def rolled(sign):
            def finding(X, got, one):
                if len(X) > 1 and agree(got, np.roll(one, sign * (len(X) // 2), 0), circular):
                    c.known('KF2', f'{t} of {len(X)} rows')
                    return True
                return False
            return finding
        finding = rolled(1)
    what = f'transform of {t} configured on {a.shape}'
    judge(c, lambda v: arr(o.transform(gen.mat(c, v)), what), X, what, circular=circular, finding=finding)
    if name == 'FFT' and mode in (OutputMode.AMPL_ANGLE_PAIRS, 12):
        return
    if t.invertible() and name != 'RowNorm':
        Z = np.vstack([arr(o.transform(gen.plain(X[[i]]))) for i in range(len(X))])
        judge(c, lambda v: arr(o.inverse_transform(gen.mat(c, v)), what), Z, 'inverse_' + what, X.shape[1],
              finding=rolled(-1) if name == 'FFT' else None)
    c.sig(name, repr(t), X)
    c.ev('transformation:' + name)


def filters(c):
    p = c.int(3, 30)
    n = c.int(1, 9)
    X = gen.values(c, n, p, c.pick(['normal', 'uniform', 'ints', 'offset', 'constant']))

    def build(kind):
        if kind == 'Downsample':
            d = Downsample()
            d.start_index, d.step = c.int(0, p - 2), c.int(1, 5)
            return d
        e = Equidistance(c.int(2, 2 * p))
        return e
    kind = c.pick(['Downsample', 'Equidistance', 'MultiFilter', 'kernel'])
    if kind == 'kernel':
        k = c.pick([LinearKernel, PolyKernel, RBFKernel])()
        if hasattr(k, 'gamma'):
            k.gamma = 0.2  # an automatic parameter would be a function of the batch
        Y = gen.values(c, c.int(1, 7), p, 'normal')
        X = X / max(1.0, np.abs(X).max())
        judge(c, lambda v: arr(k.apply_matrix(gen.mat(c, v), gen.mat(c, Y))), X, f'{type(k).__name__} matrix', len(Y))
    else:
        if kind == 'MultiFilter':
            d = Downsample()
            d.start_index, d.step = c.int(0, 1), c.int(1, 2)
            e = Equidistance(c.int(2, p))
            o = MultiFilter([e, d])
        else:
            o = build(kind)
        judge(c, lambda v: arr(o.transform(gen.mat(c, v))), X, f'{kind} of {X.shape}')
    c.sig(kind, X)
    c.ev('filter:' + kind)


def large(c):
    """Batches of a thousand rows and more."""
    names = [n for n in MODELS if n not in ('KernelPLS', 'SparsePLS')] + [n for n in TRAFOS if n not in ('FFT',)] + ['KernelPLS', 'equi', 'down']
    name = names[c.index % len(names)]
    n = c.pick([1000, 1001, 1024, 1025, 2048, 2049, c.int(1000, 1500), c.int(1500, 5000)])
    answers = {}
    if name in MODELS:
        s = zoo.spec(c, name, prep=True)
        data = s.data(c, n=20, p=6)
        o = s.build()
        msg = c.call(f'training of {s}', s.train, o, s.mats(c, data))
        c.ok(msg is None, f'{s}: {msg}')
        x = s.predictors(data)
        if name == 'KernelPLS':
            n = c.int(1000, 1300)
        answers['transform'] = o.transform
        if s.pls:
            answers['predict'] = o.predict
        what = repr(s)
    elif name in ('equi', 'down'):
        x = c.rng.normal(size=(20, 6))
        o = Equidistance(c.int(2, 9)) if name == 'equi' else Downsample()
        answers['transform'] = o.transform
        what = name
    else:
        t = trafo.spec(c, name)
        x = trafo.data(c, name)
        o = t.build()
        o.configure(gen.mat(c, x))
        answers['transform'] = o.transform
        what = repr(t)
    X = x[c.rng.integers(0, len(x), size=n)] if hasattr(c.rng, 'integers') else x[c.rng.randint(0, len(x), size=n)]
    X = X * (1 + 0.05 * c.rng.random(X.shape))
    for k, f in answers.items():
        full = arr(f(gen.mat(c, X)))
        c.ok(full.shape[0] == n, f'{k} of {what}: {n} rows in, {full.shape[0]} out')
        scale = np.abs(full[np.isfinite(full)]).max(initial=0) + 1e-10 * np.abs(X).max()
        cuts = sorted({0, n, *(c.int(1, n - 1) for _ in range(c.int(2, 4)))})
        parts = np.vstack([arr(f(gen.plain(X[a:b]))) for a, b in zip(cuts, cuts[1:])])
        c.ok(agree(parts, full, scale=scale), f'{k} of {what}: {n} rows at once differ from parts cut at {cuts}')
        for i in (0, n - 1, 999, n // 2, c.int(0, n - 1)):
            c.ok(agree(arr(f(gen.plain(X[[i]]))), full[[i]], scale=scale), f'{k} of {what}: row {i} of {n}')
    c.sig('large', what, X[:5])
    c.ev('large:' + name)


SCENARIOS = [('large', large, 52, 520), ('models', models, 1500, 30000), ('transformations', transformations, 1100, 22000),
             ('filters', filters, 600, 6000)]
