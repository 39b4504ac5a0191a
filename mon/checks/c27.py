"""C27: the same data in other units, in another order of samples or variables, against the answers for the original."""
import numpy as np

from wai.ma.core.matrix import Matrix
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import Log, OutputMode
from wai.ma.transformation.kernel import PolyKernel

from .. import gen, instr, ref, trafo, zoo
from ..common import Skip, arr

RULE = ('every algorithm, transformation and filter trained on data and on the same data in other units (factors 2^-40 to '
        '2^40 for predictors and responses, unit-carrying parameters converted), with samples or variables in another '
        'order, or with variables of the opposite sign; distinct: different (object, parameters, factors, data)')
ASSUMPTIONS = ['factors are powers of two, so that the conversion itself is free of rounding; answers agree to 1e-7 (units) '
               'or 1e-6 (order) of their scale',
               'VCPLS and an RBF kernel have built-in constants that carry the unit of the predictors: only the response '
               'is converted', 'PRM runs without tolerance (its tolerance carries several units at once)',
               'PRM takes distances below 1e-10 and the quantile transformer offsets below 1e-7 for zero: units stay above',
               'reordered data: directions are free in sign, eigenvalues of the deciding matrix are separated']
NAMES = zoo.PLS_NAMES + zoo.OTHER_NAMES
EXACT = 1e-7


def worker_init():
    instr.install(matrix=False)


worker_report = instr.report


def factor(c):
    return 2.0 ** (c.int(-40, 40) if c.chance(0.7) else c.int(-3, 3))


def close(c, got, exp, what, tol=EXACT):
    s = float(np.abs(exp).max()) if exp.size else 0.0
    c.close(got, exp, what, tol, max(s, 1e-280))


def parallel(c, got, exp, what, tol=EXACT):
    """Equal up to one factor."""
    c.ok(got.shape == exp.shape, f'{what}: shape {got.shape} instead of {exp.shape}')
    if not exp.size:
        return
    got, exp = np.abs(got), np.abs(exp)  # directions are free in sign
    a, b = np.abs(got).max(), np.abs(exp).max()
    if b == 0:
        c.ok(a == 0, f'{what}: not zero')
        return
    i = np.unravel_index(np.argmax(np.abs(exp)), exp.shape)
    c.ok(a > 0 and abs(got[i]) > 0.5 * a, f'{what}: not a multiple of the original')
    close(c, got / got[i], exp / exp[i], what, tol)


def converted(s, a, b):
    """The same algorithm for predictors times a and responses times b."""
    p, makers = dict(s.params), dict(s.makers)
    std = p.get('preprocessing_type') is zoo.PREP[2]
    if not std:
        if s.name == 'DIPLS':
            p['lambda_'] = p['lambda_'] * b * b / (a * a)
        elif s.name == 'VCPLS':
            p['lambda_'] = p['lambda_'] * b * b
        elif s.name == 'CCAFilter':
            p['lambda_X'], p['lambda_Y'] = p['lambda_X'] * a * a, p['lambda_Y'] * b * b
        elif 'GLSW' in s.name:
            p['alpha'] = p['alpha'] * a ** 4
        elif s.note.startswith('poly'):
            old = s.makers['kernel']

            def poly():
                k = old()
                k.gamma = k.gamma / (a * a)
                return k
            makers['kernel'] = poly
    return zoo.Spec(s.name, p, makers, s.note, s.q, s.mode)


def degree(s):
    """How the scores grow with the unit of the predictors; None if several units are mixed."""
    if s.params.get('preprocessing_type') is zoo.PREP[2]:
        return 0
    if s.name == 'KernelPLS':
        return 2 if s.note == 'linear' else 0
    return dict(PLS1=1, SIMPLS=0, NIPALS=0, OPLS=1, DIPLS=1, SparsePLS=1, PRM=0, VCPLS=1, CCARegression=0, CCAFilter=0,
                GLSW=1, EPO=1, YGradientGLSW=1, YGradientEPO=1)[s.name]


def prepared(c, name):
    s = zoo.spec(c, name, prep=True)
    if name == 'PRM':
        s.params.update(tol=0.0, max_iter=c.int(3, 30))
    return s


def separated(s, d):
    """VCPLS: only where the deciding eigenvalue stands apart."""
    if s.name != 'VCPLS':
        return
    s.params['num_components'] = 1
    k = zoo.PREP.index(s.params.get('preprocessing_type', zoo.PREP[0]))
    X, Y = ref.Prep(k, d['x'])(d['x']), ref.Prep(k, d['y'])(d['y'])
    v = np.linalg.eigvals(np.linalg.solve(X.T @ X, X.T @ Y @ Y.T @ X - s.params['lambda_'] * np.eye(X.shape[1])))
    v = np.sort(np.abs(v))[::-1]
    if v[0] - v[1] < 1e-3 * v[0]:
        raise Skip()


def trained(c, s, d, what):
    o = c.call(what, s.build)
    # the same storage for all: it must not change the rounding, which the search of FastICA would amplify
    msg = c.call(what, s.train, o, {k: gen.plain(v) for k, v in d.items()})
    c.ok(msg is None and o.is_initialised(), f'{what}: training reported {msg!r}')
    return o


def units(c):
    name = NAMES[c.index % len(NAMES)]
    s = prepared(c, name)
    d = s.data(c)
    separated(s, d)
    a, b = factor(c), factor(c)
    if name == 'VCPLS' or s.note.startswith('rbf'):
        if s.params.get('preprocessing_type') is not zoo.PREP[2]:
            a = 1.0
    if name == 'FastICA' and not s.params['whiten']:
        raise Skip()
    if name == 'PRM':
        a = 2.0 ** c.int(-6, 40)
    if name == 'DIPLS' and not 1e-7 < s.params['lambda_'] * b * b / (a * a):
        a, b = b, a
    if name in ('GLSW', 'EPO'):
        e = {k: v * a for k, v in d.items()}
    else:
        e = {k: v * (a if k in ('x', 'xs', 'xt', 'xu', 'x1') else b) for k, v in d.items()}
    s2 = converted(s, a, b)
    what = f'{s} with predictors times {a:g} and responses times {b:g}'
    o1, o2 = trained(c, s, d, what), trained(c, s2, e, what)
    if name == 'PCA':
        l1, l2 = arr(o1.loadings), arr(o2.loadings)
        c.ok(l1.shape == l2.shape, f'{what}: {l2.shape[1] - 1} instead of {l1.shape[1] - 1} components')
        close(c, signless(l2, l1), l1, f'{what}: loadings')
        e = arr(o1.scores) * (a if s.params['center'] else 1)
        close(c, signless(arr(o2.scores), e), e, f'{what}: scores')
    elif name == 'FastICA':
        close(c, arr(o2.sources), arr(o1.sources), f'{what}: sources')
        close(c, arr(o2.components) * a, arr(o1.components), f'{what}: components')
        close(c, arr(o2.reconstruct()), arr(o1.reconstruct()) * a, f'{what}: reconstruction')
    else:
        x = s.predictors(d)
        q = x[:c.int(1, 4)] + 0.1 * c.rng.normal(size=(1, x.shape[1]))
        t1, t2 = arr(o1.transform(gen.plain(q))), arr(o2.transform(gen.plain(q * a)))
        if 'GLSW' in name:  # which eigenvalue goes with which direction is open (finding KF4), the values are not
            e1, e2 = (np.linalg.eigvals(arr(o.G)).real for o in (o1, o2))
            close(c, np.sort(e2)[None], np.sort(e1)[None], f'{what}: eigenvalues of the filter')
            c.ev('units:' + name)
            c.sig('units', repr(s), a, b, c.index)
            return
        if name not in ('EPO', 'YGradientEPO', 'OPLS'):
            t2 = signless(t2, t1)
        close(c, t2, t1 * a ** degree(s), f'{what}: transform')
        if s.pls:
            close(c, arr(o2.predict(gen.plain(q * a))), arr(o1.predict(gen.plain(q))) * b, f'{what}: predict')
        if name == 'CCAFilter':
            yq = d['y'][:3] + 0.1
            close(c, arr(o2.transform_response(gen.plain(yq * b))), arr(o1.transform_response(gen.plain(yq))),
                  f'{what}: transform of responses')
        if name != 'SparsePLS':
            m1, m2 = s.exposed(o1), s2.exposed(o2)
            for k, m in m1.items():
                if name == 'KernelPLS' and k == 'P':  # zero but for rounding
                    continue
                parallel(c, arr(m2[k]), arr(m), f'{what}: matrix {k}')
    c.sig('units', repr(s), a, b, c.index)
    c.ev('units:' + name)
    if max(a, b, 1 / a, 1 / b) > 1e6:
        c.ev('factor beyond 1e6')
    c.sample({'object': repr(s), 'predictors': a, 'responses': b})


def signless(got, exp):
    """Columns of got with the sign that fits exp."""
    sg = np.sign((got * exp).sum(0))
    return got * np.where(sg == 0, 1, sg)


def order(c):
    names = [n for n in NAMES if n != 'FastICA']
    name = names[c.index % len(names)]
    s = prepared(c, name)
    if name == 'EPO' or name == 'YGradientEPO':
        s.params['N'] = 1
    if name in ('NIPALS', 'KernelPLS', 'CCARegression') and s.q > 1:
        s.params.update(tol=1e-14, max_iter=3000)
        if name != 'CCARegression':
            s.params['num_components'] = 1
    if name == 'PCA':
        s.params['variance'] = 0.9999999
    d = s.data(c)
    x = s.predictors(d)
    p = x.shape[1]
    separated(s, d)
    w = c.pick(['samples', 'variables', 'both', 'signs'])
    cols, signs = np.arange(p), np.ones(p)
    if w in ('variables', 'both'):
        cols = np.array(c.perm(p))
    if w == 'signs':
        signs = c.rng.choice([-1.0, 1.0], size=p)
    rows = {}

    def samples(v):
        n = len(v)
        if n not in rows:
            rows[n] = np.array(c.perm(n)) if w in ('samples', 'both') else np.arange(n)
        return rows[n]
    e = {}
    for k, v in d.items():
        own = {'yt': 'xt', 'ys': 'xs'}.get(k, k)  # the response goes with its predictors
        r = samples(d[own]) if name != 'DIPLS' else None
        if name == 'DIPLS':
            key = own
            if key not in rows:
                rows[key] = np.array(c.perm(len(v))) if w in ('samples', 'both') else np.arange(len(v))
            r = rows[key]
        v = v[r]
        if k.startswith('x') and (k != 'x2' or name in ('GLSW', 'EPO')):
            v = v[:, cols] * signs
        e[k] = v
    what = f'{s} with {w} in another order'
    if name == 'KernelPLS' and w == 'signs' and not s.note.startswith(('linear', 'poly', 'rbf')):
        raise Skip()
    o1, o2 = trained(c, s, d, what), trained(c, s, e, what)
    if name == 'PCA':
        l1, l2 = arr(o1.loadings)[:, :-1], arr(o2.loadings)[:, :-1]
        c.ok(l1.shape == l2.shape, f'{what}: {l2.shape[1]} instead of {l1.shape[1]} components')
        v = np.sort(arr(o1.scores).var(0))[::-1]
        if len(v) > 1 and np.min(-np.diff(v)) < 1e-3 * v[0]:
            raise Skip()
        c.close(signless(l2, (l1[cols] * signs[:, None])), l1[cols] * signs[:, None], f'{what}: loadings', 1e-6, 1.0)
        c.ev('order:PCA')
        c.sig('order', repr(s), w, c.index)
        return
    q = x[:c.int(1, 4)] + 0.1 * c.rng.normal(size=(1, p))
    q2 = q[:, cols] * signs
    if 'GLSW' in name:
        e1, e2 = (np.linalg.eigvals(arr(o.G)).real for o in (o1, o2))
        close(c, np.sort(e2)[None], np.sort(e1)[None], f'{what}: eigenvalues of the filter')
        c.ev('order:' + name)
        c.sig('order', repr(s), w, c.index)
        return
    t1, t2 = arr(o1.transform(gen.plain(q))), arr(o2.transform(gen.plain(q2)))
    if name in ('EPO', 'YGradientEPO', 'OPLS'):  # scores have a variable per column
        t1 = t1[:, cols] * signs
    elif name in ('CCAFilter', 'CCARegression', 'KernelPLS', 'NIPALS', 'SIMPLS', 'PRM', 'VCPLS', 'PLS1', 'DIPLS'):
        t2 = signless(t2, t1)
    if name != 'SparsePLS':  # its scores depend on the batch (finding KF10)
        close(c, t2, t1, f'{what}: transform', 1e-5)
    if s.pls:
        y = s.response(d)
        e1 = arr(o1.predict(gen.plain(q)))
        c.close(arr(o2.predict(gen.plain(q2))), e1, f'{what}: predict', 1e-5, max(np.abs(y).max(), np.abs(e1).max()))
    c.sig('order', repr(s), w, c.index)
    c.ev('order:' + name)
    c.ev('reordered ' + w)


def transformations(c):
    names = ('Center', 'Standardize', 'RowNorm', 'RobustScaler', 'QuantileTransformer', 'Log', 'FFT', 'PassThrough',
             'SavitzkyGolay', 'SavitzkyGolay2', 'MSC')
    name = names[c.index % len(names)]
    t = trafo.spec(c, name)
    x = trafo.data(c, name)
    q = trafo.data(c, name, x)
    a = factor(c)
    if name == 'QuantileTransformer':
        a = max(a, 1 / a)
    per = np.full(x.shape[1], a)
    if name in ('Center', 'Standardize', 'RobustScaler', 'QuantileTransformer') and c.chance(0.5):  # a unit per column
        per = np.array([factor(c) for _ in per])
        if name == 'QuantileTransformer':
            per = np.maximum(per, 1 / per)
    o1, o2 = t.build(), t.build()
    what = f'{t} of data times {per}'
    if name == 'Log':
        o2.offset = o1.offset * a
    if name == 'RobustScaler' and t.params['with_scaling']:
        lo, hi = t.params['quantile_range']
        if np.min(np.percentile(x, hi, axis=0) - np.percentile(x, lo, axis=0)) * min(1, per.min()) < 1e-12:
            raise Skip()
    if name == 'MSC':  # wave numbers in their unit, amplitudes in theirs
        b = factor(c)
        per[0] = b
        from wai.ma.transformation._MultiplicativeScatterCorrection import RangeBased
        rb = RangeBased()
        rb.ranges = [(lo * b, hi * b) for lo, hi in t.ranges]
        o2.correction = rb
        qper = np.full(q.shape[1], a)
        qper[0] = b
    else:
        qper = per
    c.call(what, o1.configure, gen.mat(c, x))
    c.call(what, o2.configure, gen.mat(c, x * per))
    y1, y2 = arr(o1.transform(gen.plain(q))), arr(o2.transform(gen.plain(q * qper)))
    if name in ('Standardize', 'RowNorm', 'QuantileTransformer'):
        e = y1
    elif name == 'RobustScaler':
        e = y1 if t.params['with_scaling'] else y1 * per
    elif name == 'Log':
        e = y1 + np.log(a) / np.log(o1.base)
        c.close(y2, e, what, 1e-9, max(np.abs(e).max(), np.abs(y1).max(), abs(np.log(a) / np.log(o1.base))))
        c.ev('transformation:Log')
        c.sig('trafo', repr(t), x, a)
        return
    elif name == 'FFT':
        m = t.params['output_mode']
        m = m if isinstance(m, OutputMode) else OutputMode(m)
        e = y1 * a
        if m is OutputMode.PHASE_ANGLE_ONLY:
            e = y1
        elif m is OutputMode.AMPL_ANGLE_PAIRS:
            k = y1.shape[1]
            ang = np.arange(2, k, 2)  # the angles
            e[:, ang] = y1[:, ang]
            for j in ang:
                close(c, y2[:, [j]], y1[:, [j]], f'{what}: angle')
            amp = [j for j in range(k) if j not in ang]
            close(c, y2[:, amp], e[:, amp], f'{what}: amplitudes')
            c.ev('transformation:FFT pairs')
            c.sig('trafo', repr(t), x, a)
            return
    elif name == 'MSC':
        c.ok(y2.shape == y1.shape, f'{what}: shape')
        close(c, y2[:, [0]], y1[:, [0]] * per[0], f'{what}: wave numbers')
        close(c, y2[:, 1:], y1[:, 1:] * a, f'{what}: amplitudes', 1e-6)
        c.ev('transformation:MSC')
        c.sig('trafo', repr(t), x, a)
        return
    else:
        e = y1 * per if y1.shape[1] == len(per) and name == 'Center' else y1 * a
    c.ok(y2.shape == e.shape, f'{what}: shape {y2.shape} instead of {e.shape}')
    if name in ('Center', 'Standardize', 'RobustScaler', 'QuantileTransformer'):
        for j in range(e.shape[1]):
            s = max(np.abs(e[:, j]).max(), np.abs(q[:, j] * per[j]).max() if name == 'Center' else 0)
            c.close(y2[:, [j]], e[:, [j]], what, EXACT, max(s, 1e-12 if name != 'Center' else s) or 1.0)
    else:
        close(c, y2, e, what)
    c.ev('transformation:' + name)
    c.sig('trafo', repr(t), x, per)


def filters(c):
    x = c.rng.normal(size=(c.int(1, 6), c.int(2, 30)))
    a = factor(c)
    if c.chance(0.5):
        f = Equidistance(c.int(2, 40))
    else:
        f = Downsample()
        f.start_index, f.step = c.int(0, 3), c.int(1, 5)
    close(c, arr(f.transform(gen.mat(c, x * a))), arr(f.transform(gen.mat(c, x))) * a, f'{type(f).__name__} of data times {a}')
    c.sig('filters', x, a, type(f).__name__)
    c.ev('filter:' + type(f).__name__)


def decompositions(c):
    """Eigenvalues, singular values and inverses follow the unit of the matrix."""
    n = c.int(1, 9)
    a = factor(c) ** c.pick([1, 1, 2])
    x = gen.well_conditioned(c, n + 2, n, 20.0)[:n] + 2 * np.eye(n)
    if np.linalg.cond(x) > 1e5:
        raise Skip()
    m, k = gen.plain(x), gen.mat(c, x * a)
    what = f'matrix of {n} rows times {a:g}'
    close(c, arr(k.inverse()) * a, arr(m.inverse()), f'{what}: inverse')
    if hasattr(m, 'pseudo_inverse'):
        close(c, arr(k.pseudo_inverse()) * a, arr(m.pseudo_inverse()), f'{what}: pseudo inverse')
    close(c, arr(k.get_singular_values()), arr(m.get_singular_values()) * a, f'{what}: singular values')
    s = x + x.T
    m, k = gen.plain(s), gen.mat(c, s * a)
    close(c, np.sort(arr(k.get_eigenvalues()).ravel())[None], np.sort(arr(m.get_eigenvalues()).ravel())[None] * a,
          f'{what}: eigenvalues')
    v = np.sort(np.abs(np.linalg.eigvalsh(s)))[::-1]
    if n == 1 or v[0] - v[1] > 1e-3 * v[0]:
        e1, e2 = arr(m.get_dominant_eigenvector()), arr(k.get_dominant_eigenvector())
        close(c, signless(e2, e1), e1, f'{what}: dominant eigenvector')
    c.close(arr(k.normalized()), arr(gen.plain(s).normalized()), f'{what}: normalized', 1e-9, 1.0)
    c.sig('decompositions', x, a)
    c.ev('decompositions')


SCENARIOS = [('units', units, 2040, 34000), ('order', order, 1280, 19200), ('transformations', transformations, 2200, 44000),
             ('filters', filters, 600, 6000), ('decompositions', decompositions, 1200, 20000)]
