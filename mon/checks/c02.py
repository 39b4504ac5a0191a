"""C02: operand isolation, watched by hooks on every public operation plus in-place scribbling afterwards."""
import numpy as np

from wai.ma.core import MultiFilter
from wai.ma.core.matrix import Matrix, factory, helper
from wai.ma.filter import Downsample, Equidistance
from wai.ma.transformation import MultiplicativeScatterCorrection

from .. import gen, instr, trafo, zoo
from ..common import Violation
from . import c01

RULE = ('every public operation runs under hooks that compare the byte image of each operand before and after and test '
        'results for shared storage; afterwards operands and results are overwritten in place and the other side is '
        'compared again; distinct: different (operation, parameters, shapes, contents)')
ASSUMPTIONS = ['Matrix(ndarray) itself wraps the array it is given; isolation is judged between Matrix objects and '
               'between factory.create and its argument']


def worker_init():
    instr.install(isolation=True)


worker_report = instr.report


def matrix_ops(c):
    """The C01 operation catalogue under the isolation hooks (its oracles stay armed)."""
    f = c01.OPS[c.index % len(c01.OPS)]
    c.ev(f.__name__)
    f(c)


UNARY = [(n, ()) for n in ('transpose', 'copy', 'abs', 'sign', 'sqrt', 'exp', 'tanh', 'diag', 'svd_U', 'svd_V',
                           'svd_S', 'get_singular_values', 'pseudo_inverse', 'normalized', 'head')]
UNARY += [('sum', (0,)), ('sum', (1,)), ('sum', (-1,)), ('mean', (0,)), ('mean', (1,)), ('mean', (-1,)),
          ('get_row', (0,)), ('get_column', (0,)), ('get_rows', ((0, 1),)), ('get_columns', ((0, 1),)),
          ('clip', (-1, 1)), ('clip_lower', (-100,)), ('clip_upper', (1e9,)), ('pow_elementwise', (1,)),
          ('pow_elementwise', (2,)), ('mul', (1,)), ('mul', (1.0,)), ('add', (0,)), ('sub', (0.0,)), ('div', (1,)),
          ('head', (100,)), ('apply_elementwise', (lambda x: x,)), ('normalized', (1,))]
SQUARE = [(n, ()) for n in ('get_eigenvectors', 'get_eigenvalues', 'get_eigenvectors_sorted_ascending',
                            'get_eigenvectors_sorted_descending', 'get_dominant_eigenvector', 'inverse',
                            'get_eigenvalue_decomposition_V', 'get_eigenvalue_decomposition_D',
                            'get_eigenvalues_sorted_descending', 'get_eigenvalues_sorted_ascending')]


def identity_cases(c):
    """Operations whose result equals the operand: the tempting place to hand the operand itself back."""
    a = gen.values(c, *gen.shape(c, False), 'positive')
    table = list(UNARY)
    n, p = a.shape
    table += [('get_sub_matrix', ((0, n), (0, p))), ('get_sub_matrix', (list(range(n)), list(range(p)))),
              ('get_rows', (list(range(n)),)), ('get_rows', ((0, n),)), ('get_columns', ((0, p),)),
              ('get_columns', (list(range(p)),))]
    if n == p:
        a = a + a.T + np.diag(np.arange(n) * 5.0 + 1)
        table += SQUARE
    m = gen.mat(c, a)
    name, args = c.pick(table)
    c.sig(name, a, repr(args)[:30] if name != 'apply_elementwise' else '')
    c.ev(name)
    if c.chance(0.3):  # some decomposition is already cached
        if n == p:
            m.get_eigenvalues()
        m.svd_U()
    r = getattr(m, name)(*args)
    c.same(m, a, f'receiver of {name}')
    keep = r.data.copy()
    zoo.scramble(c, m)
    c.ok(np.array_equal(r.data, keep, equal_nan=True), f'{name}: changing the receiver changed the result')
    m2 = gen.mat(c, a)
    r2 = getattr(m2, name)(*args)
    zoo.scramble(c, r2)
    c.same(m2, a, f'{name}: changing the result changed the receiver')
    r3 = getattr(m2, name)(*args)
    c.ok(r3.data.shape == keep.shape and np.allclose(np.abs(r3.data), np.abs(keep), 1e-9, 1e-300),
         f'{name}: changing a result changed the next answer')


def helper_cases(c):
    a, m = gen.matrix(c, big=False, kind=c.pick(gen.MODERATE))
    n, p = a.shape
    table = dict(
        create=lambda: factory.create(m.data), diag=lambda: factory.diag(m.get_column(0)),
        row_as_vector=lambda: helper.row_as_vector(m, 0), column_as_vector=lambda: helper.column_as_vector(m, 0),
        delete_cols=lambda: helper.delete_cols(m, []), delete_col=lambda: helper.delete_col(m, p),
        multi_concat=lambda: helper.multi_concat(c.int(0, 1), m), row_means=lambda: helper.row_means(m),
        column_means=lambda: helper.column_means(m), column_stdevs=lambda: helper.column_stdevs(m),
        eye_like=lambda: factory.eye_like(m), zeros_like=lambda: factory.zeros_like(m),
        filled_like=lambda: factory.filled_like(m, 3), rand_like=lambda: factory.rand_like(m, 3),
        solve=lambda: helper.solve(Matrix(np.eye(n)), m), lines=lambda: helper.to_lines(m, True, ',', 3))
    name = c.pick(sorted(table))
    c.sig(name, a)
    c.ev(name)
    r = table[name]()
    c.same(m, a, f'operand of {name}')
    if isinstance(r, Matrix) and r.num_rows() and r.num_columns():
        zoo.scramble(c, r)
        c.same(m, a, f'{name}: changing the result changed the operand')


def filters(c):
    """Transformations, filters and kernels: nothing handed in changes, no result aliases it."""
    t = trafo.spec(c)
    a = trafo.data(c, t.name)
    b = trafo.data(c, t.name, like=a)
    m, k = gen.mat(c, a), gen.mat(c, b)
    c.sig(repr(t), a, b)
    c.ev(t.name)
    o = t.build()
    if c.chance(0.7):
        o.configure(m)
    r1 = o.transform(k)
    e1 = r1.data.copy()
    zoo.scramble(c, m)   # the fitting data is the caller's again
    r2 = o.transform(k)
    c.close(r2.data, e1, f'{t}: changing the fitting matrix afterwards changed the fitted transformation', 1e-9)
    zoo.scramble(c, r2)
    c.same(k, b, f'{t}: changing the result changed the input')
    c.close(o.transform(k).data, e1, f'{t}: changing a result changed the transformation', 1e-9)
    if t.invertible(o):
        z = gen.mat(c, e1)
        o.inverse_transform(z)
        c.same(z, e1, f'{t}: operand of inverse_transform')


def plain_filters(c):
    a, m = gen.matrix(c, c.int(1, 6), c.int(3, 12), c.pick(gen.MODERATE))
    d, e = Downsample(), Equidistance(c.pick([a.shape[1], 2, a.shape[1] + 2]))
    d.start_index, d.step = c.int(0, 2), c.int(1, 3)
    which = c.int(0, 3)
    f = [d, e, MultiFilter([]), MultiFilter([d, e] if (a.shape[1] - d.start_index) > d.step else [e])][which]
    c.sig('filter', which, a, d.start_index, d.step)
    r = f.transform(m)
    c.same(m, a, 'filtered operand')
    zoo.scramble(c, r)
    c.same(m, a, 'filter: changing the result changed the input')


def kernels(c):
    note, f = zoo.kernel(c)
    a, m = gen.matrix(c, c.int(1, 6), 3, 'normal')
    b, k = gen.matrix(c, c.int(1, 6), 3, 'normal')
    c.sig(note, a, b)
    o = f()
    r = o.apply_matrix(m) if c.chance(0.5) else o.apply_matrix(m, k)
    zoo.scramble(c, r)
    o.apply_vector(m.get_row(0), k.get_row(0))
    c.same(m, a, 'kernel operand')
    c.same(k, b, 'kernel operand')


def spectra(c):
    n = c.int(3, 10)
    w = np.sort(c.rng.uniform(0, 100, n))
    sp = [np.column_stack([w, c.rng.normal(size=n)]) for _ in range(c.int(1, 4))]
    ms = [gen.mat(c, s) for s in sp]
    c.sig('spectra', *sp)
    r = MultiplicativeScatterCorrection.create_configuration_matrix(ms)
    zoo.scramble(c, r)
    for s, m in zip(sp, ms):
        c.same(m, s, 'spectrum')


def algorithms(c):
    """Training, predicting, transforming: caller's matrices keep their bytes, and scribbling on them afterwards
    (or on an answer) never shows in the model."""
    s = zoo.spec(c, (zoo.PLS_NAMES + zoo.OTHER_NAMES)[c.index % 17], prep=True)
    data = s.data(c)
    mats = s.mats(c, data)
    xq = s.predictors(s.data(c, p=s.predictors(data).shape[1]))
    q = gen.mat(c, xq)
    yq = s.response(data)
    yq = gen.mat(c, yq) if yq is not None else None
    c.sig(repr(s), *data.values())
    c.ev(s.name)
    o = s.build()
    msg = s.train(o, mats)
    if msg is not None:
        raise Violation(f'{s} refused to train: {msg}')
    for k, m in mats.items():
        c.same(m, data[k], f'{s}: training matrix {k}')
    before = s.observe(o, q, yq)
    if s.name == 'FastICA' and not all(np.isfinite(v).all() for v in before.values()):
        return
    c.same(q, xq, f'{s}: query matrix')
    for m in mats.values():
        zoo.scramble(c, m)
    if s.name not in ('PCA', 'FastICA'):
        ans = s.query(o, q, yq)
        for m in ans.values():
            zoo.scramble(c, m)
        c.same(q, xq, f'{s}: query matrix after changing the answers')
    after = s.observe(o, q, yq)
    for k in before:
        c.close(after[k], before[k], f'{s}: {k} after the caller changed his matrices', 1e-9)


SCENARIOS = [('matrix operations', matrix_ops, 12000, 150000), ('identity cases', identity_cases, 8000, 100000),
             ('helpers', helper_cases, 3000, 30000), ('transformations', filters, 2500, 30000),
             ('filters', plain_filters, 800, 8000), ('kernels', kernels, 600, 6000), ('spectra', spectra, 300, 3000),
             ('algorithms', algorithms, 1000, 12000)]
