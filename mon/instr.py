"""Hooks on the running library: every public operation is wrapped, and monitors look at its operands and results.

Only names of the documented public surface are wrapped, and only contracts of that surface are judged, so helper
functions introduced by a refactoring are not constrained."""
import copy
import functools

import numpy as np

from . import common

COUNTS = {}
STATE = {'depth': 0, 'isolation': False, 'cache': False, 'rng': False, 'coherent': 0, 'alias': 0, 'image': 0, 'rngs': 0}

MUTATORS = {'set', 'set_row', 'set_column', 'add_by_vector_modify', 'sub_by_vector_modify', 'mul_by_vector_modify',
            'div_by_vector_modify', 'vector_op_modify', 'reset_cache'}
PURE = {'get_sub_matrix', 'get_rows', 'get_columns', 'get_eigenvectors', 'get_eigenvectors_sorted_ascending',
        'get_eigenvectors_sorted_descending', 'get_dominant_eigenvector', 'get_eigenvalue_decomposition_V',
        'get_eigenvalue_decomposition_D', 'get_eigenvalues', 'get_eigenvalues_sorted_descending',
        'get_eigenvalues_sorted_ascending', 'svd_U', 'svd_V', 'svd_S', 'get_singular_values', 'sum', 'norm1', 'norm2',
        'norm2_squared', 'mul', 'is_multiplicable_with', 'vector_dot', 'normalized', 'is_vector', 'same_shape_as',
        'mul_elementwise', 'scale_by_row_vector', 'scale_by_column_vector', 'add_by_vector', 'div_elementwise', 'div',
        'sub', 'add', 'pow_elementwise', 'sqrt', 'transpose', 'get_row', 'get_column', 'inverse', 'copy', 'as_real',
        'to_raw_copy_1D', 'to_raw_copy_2D', 'concat', 'concat_along_rows', 'concat_along_columns', 'apply_elementwise',
        'clip', 'clip_lower', 'clip_upper', 'sign', 'abs', 'max', 'median', 'where_vector', 'head', 'diag', 'mean',
        'contains_NaN', 'any', 'all', 'which', 'trace', 'row_str', 'shape_string', 'sub_by_vector', 'mul_by_vector',
        'vector_op', 'vector_size_matches', 'get_from_vector', 'vector_to_diagonal', 'get_eigenvectors_sorted',
        'get_eigenvalues_sorted', 'exp', 'tanh', 'pseudo_inverse', 'serialise_state', 'get_serialised_state'}
FACTORY = {'create', 'from_raw', 'eye', 'eye_like', 'zeros', 'zeros_like', 'filled', 'filled_like', 'from_row',
           'from_column', 'randn', 'randn_like', 'rand', 'rand_like', 'diag', 'range', 'create_spectrum'}
HELPER = {'delete_col', 'delete_cols', 'row_as_vector', 'mean', 'stdev', 'column_as_vector', 'equal', 'read',
          'to_lines', 'write', 'to_string', 'dim', 'inverse', 'row_mean', 'row_means', 'column_mean', 'column_means',
          'row_stdev', 'row_stdevs', 'column_stdev', 'column_stdevs', 'fill_diagonal', 'solve', 'multi_concat'}
OBJECT_OPS = {'configure', 'transform', 'inverse_transform', 'initialize', 'initialize_supervised',
              'initialize_unsupervised', 'initialize_semisupervised', 'predict', 'transform_response', 'reconstruct',
              'apply_matrix', 'apply_vector', 'apply', 'serialise_state', 'create_configuration_matrix', 'correct'}


def image(m):
    d = m.data
    return (d.shape, d.dtype.str, d.tobytes())


def matrices(objs):
    from wai.ma.core.matrix import Matrix
    out = []
    for o in objs:
        if isinstance(o, Matrix):
            if isinstance(o.data, np.ndarray):
                out.append(o)
        elif isinstance(o, (list, tuple)) and len(o) < 50:
            out += [x for x in o if isinstance(x, Matrix) and isinstance(x.data, np.ndarray)]
    return out


def solvable(a, tol):
    """Whether LAPACK's general solver is up to it: it loses entries many orders of magnitude below the others."""
    vals, vecs = np.linalg.eig(a)
    return bool(np.abs(a @ vecs - vecs * vals).max() <= tol)


def cache_ok(m):
    """Whatever a matrix has cached must belong to its current contents: a clone (cache included) is asked for its
    eigen decomposition after the operation, so the matrix itself keeps its history."""
    a = m.data
    if a.ndim != 2 or a.shape[0] != a.shape[1] or a.shape[0] > 12 or not np.all(np.isfinite(a)):
        return
    try:
        twin = copy.deepcopy(m)
        vals, vecs = twin.get_eigenvalues().data.ravel(), twin.get_eigenvectors().data
    except Exception:
        return  # judged by the check's own queries
    STATE['coherent'] += 1
    scale = max(np.abs(a).max(), 1e-300) * max(a.shape)
    if vecs.shape != a.shape or np.abs(a @ vecs - vecs * vals).max() > 1e-7 * scale and solvable(a, 1e-8 * scale):
        common.PENDING.append('the eigen decomposition does not belong to the current contents')


def wrap(owner, name, pure, level):
    raw = owner.__dict__[name]
    static = isinstance(raw, staticmethod)
    klass = isinstance(raw, classmethod)
    fn = raw.__func__ if (static or klass) else raw
    label = f'{getattr(owner, "__name__", owner)}.{name}'

    @functools.wraps(fn)
    def hook(*args, **kw):
        st = STATE
        COUNTS[label] = COUNTS.get(label, 0) + 1
        if level == 'matrix' and st['depth'] > 0:
            return fn(*args, **kw)
        if level == 'matrix':
            st['depth'] += 1
        try:
            if not (st['isolation'] or st['cache'] or st['rng']):
                return fn(*args, **kw)
            ops = matrices(args) + matrices(kw.values())
            guarded = ops if pure else ops[1:]
            if not pure and ops:  # the receiver may alias an argument on purpose (m op m)
                guarded = [o for o in guarded if not np.may_share_memory(o.data, ops[0].data)]
            before = [(o, o.data, image(o)) for o in guarded] if st['isolation'] else []
            rng_before = np.random.get_state() if st['rng'] and level != 'matrix' else None
            try:
                result = fn(*args, **kw)
            finally:
                for o, data, img in before:
                    st['image'] += 1
                    if o.data is not data and not np.array_equal(o.data, data, equal_nan=True) or image(o) != img:
                        common.PENDING.append(f'{label} changed an operand')
                if rng_before is not None:
                    st['rngs'] += 1
                    now = np.random.get_state()
                    if now[2] != rng_before[2] or not np.array_equal(now[1], rng_before[1]):
                        common.PENDING.append(f'{label} disturbed the process-wide random state')
            if st['isolation']:
                for r in matrices([result]):
                    for o in ops:
                        st['alias'] += 1
                        if r is o or np.shares_memory(r.data, o.data):
                            common.PENDING.append(f'{label}: the result shares storage with an operand')
            if st['cache'] and level == 'matrix':
                STATE['cache'] = False
                try:
                    for o in ops:
                        cache_ok(o)
                finally:
                    STATE['cache'] = True
            return result
        finally:
            if level == 'matrix':
                st['depth'] -= 1

    setattr(owner, name, staticmethod(hook) if static else classmethod(hook) if klass else hook)


def subclasses(cls):
    out = []
    for s in cls.__subclasses__():
        out += [s] + subclasses(s)
    return out


def install(isolation=False, cache=False, rng=False, matrix=True, objects=True):
    """Wraps the library in this process."""
    import wai.ma.algorithm
    import wai.ma.algorithm.glsw
    import wai.ma.algorithm.ica
    import wai.ma.algorithm.pls
    import wai.ma.filter
    import wai.ma.transformation.kernel
    from wai.ma.algorithm.ica.approxfun import NegEntropyApproximationFunction
    from wai.ma.core import Filter, Serialisable
    from wai.ma.core.matrix import Matrix, factory, helper
    from wai.ma.transformation.kernel import AbstractKernel
    STATE.update(isolation=isolation, cache=cache, rng=rng)
    if matrix:
        for name in sorted(PURE | MUTATORS):
            if name in Matrix.__dict__:
                wrap(Matrix, name, name in PURE, 'matrix')
        for mod, names in ((factory, FACTORY), (helper, HELPER)):
            for name in sorted(names):
                if name in vars(mod):
                    wrap(mod, name, name != 'fill_diagonal', 'module')
    if objects:
        seen = set()
        for base in (Filter, Serialisable, AbstractKernel, NegEntropyApproximationFunction):
            for cls in subclasses(base):
                if cls in seen or cls is Matrix or not cls.__module__.startswith('wai.ma'):
                    continue
                seen.add(cls)
                for name in sorted(OBJECT_OPS):
                    f = cls.__dict__.get(name)
                    if f is not None and not getattr(f, '__isabstractmethod__', False):
                        wrap(cls, name, True, 'object')


def report():
    total = {'hooked_calls': dict(sorted(COUNTS.items()))}
    for k in ('coherent', 'alias', 'image', 'rngs'):
        if STATE[k]:
            total[{'coherent': 'cache_coherence_checks', 'alias': 'storage_sharing_checks',
                   'image': 'operand_byte_image_checks', 'rngs': 'random_state_checks'}[k]] = STATE[k]
    return total
