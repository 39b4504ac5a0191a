"""The objects of the library with random (admissible) parameters, and data to use them on.

A Spec can be built afresh any number of times, trained on any data set made by its generator, and observed."""
import numpy as np

from wai.ma.algorithm import PCA, CCAFilter
from wai.ma.algorithm.glsw import EPO, GLSW, YGradientEPO, YGradientGLSW
from wai.ma.algorithm.ica import FastICA
from wai.ma.algorithm.ica._FastICA import Algorithm
from wai.ma.algorithm.ica.approxfun import Cube, Exponential, LogCosH
from wai.ma.algorithm.pls import (DIPLS, NIPALS, OPLS, PLS1, PRM, SIMPLS, VCPLS, CCARegression, DeflationMode,
                                  KernelPLS, SparsePLS)
from wai.ma.core import PreprocessingType
from wai.ma.core.matrix import Matrix
from wai.ma.transformation.kernel import LinearKernel, PolyKernel, RBFKernel

from . import gen

PLS_NAMES = ('PLS1', 'SIMPLS', 'NIPALS', 'KernelPLS', 'OPLS', 'DIPLS', 'SparsePLS', 'PRM', 'VCPLS', 'CCARegression')
OTHER_NAMES = ('CCAFilter', 'GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO', 'PCA', 'FastICA')
CLASSES = dict(PLS1=PLS1, SIMPLS=SIMPLS, NIPALS=NIPALS, KernelPLS=KernelPLS, OPLS=OPLS, DIPLS=DIPLS,
               SparsePLS=SparsePLS, PRM=PRM, VCPLS=VCPLS, CCARegression=CCARegression, CCAFilter=CCAFilter, GLSW=GLSW,
               EPO=EPO, YGradientGLSW=YGradientGLSW, YGradientEPO=YGradientEPO, PCA=PCA, FastICA=FastICA)
MULTI = ('NIPALS', 'KernelPLS', 'CCARegression')
PREP = (PreprocessingType.NONE, PreprocessingType.CENTER, PreprocessingType.STANDARDIZE)


def kernel(c, linear_only=False):
    """(description, factory of a kernel object)"""
    r = 0 if linear_only else c.int(0, 2)
    if r == 0:
        return 'linear', LinearKernel
    if r == 1:
        g = c.pick([0.05, 0.3, 1.0])

        def rbf():
            k = RBFKernel()
            k.gamma = g
            return k
        return f'rbf {g}', rbf
    d, c0, g = c.pick([1, 2]), c.pick([0.0, 1.0]), c.pick([0.1, 0.5])

    def poly():
        k = PolyKernel()
        k.degree, k.coef_0, k.gamma = d, c0, g
        return k
    return f'poly {d} {c0} {g}', poly


class Spec:
    def __init__(self, name, params, makers=None, note='', q=1, mode=None):
        self.name, self.params, self.makers, self.note, self.q, self.mode = name, params, makers or {}, note, q, mode

    def __repr__(self):
        return f'{self.name}({self.params}{self.note}{" " + self.mode if self.mode else ""})'

    @property
    def pls(self):
        return self.name in PLS_NAMES

    def build(self):
        o = CLASSES[self.name]()
        for k, v in self.params.items():
            setattr(o, k, v)
        for k, f in self.makers.items():
            setattr(o, k, f())
        return o

    # ---- data ---------------------------------------------------------------------------------------------
    def data(self, c, n=None, p=None, layout=True):
        """A data set (dict of arrays) this algorithm can be trained on."""
        k = self.params.get('num_components', 2)
        p = p or gen.rows(c, max(k + 1, 3), 8, 40)
        n = n or gen.rows(c, max(p + 3, 8), max(p + 8, 26), 200)
        if self.name == 'DIPLS':
            nt = gen.rows(c, max(p + 2, 6), max(p + 6, 20), 150)
            nu = gen.rows(c, 1, 6, 100)
            xs, ys = gen.regression(c, n, p, cond=8.0)
            xt, yt = gen.regression(c, nt, p, cond=8.0)
            return dict(xs=xs, xt=xt, xu=gen.well_conditioned(c, nu + p + 1, p, 8.0)[:nu], ys=ys, yt=yt)
        if self.name in ('GLSW', 'EPO'):
            x, _ = gen.regression(c, n, p)
            return dict(x1=x, x2=x + 0.3 * gen.well_conditioned(c, n, p) + c.uni(-1, 1))
        if self.name in ('YGradientGLSW', 'YGradientEPO'):
            x, y = gen.regression(c, n, p)
            return dict(x1=x, x2=y)
        if self.name == 'PCA':
            return dict(x=gen.well_conditioned(c, n, p))
        if self.name == 'FastICA':
            s = np.column_stack([c.pick([c.rng.uniform(-1, 1, n + 20), np.sign(c.rng.normal(size=n + 20)) *
                                         c.rng.uniform(0.5, 1.5, n + 20), c.rng.exponential(1.0, n + 20)])
                                 for _ in range(p)])
            x = s @ gen.well_conditioned(c, p + 2, p, 5.0)[:p] + c.uni(-2, 2)
            if not self.params.get('whiten', True):  # the caller promises white data
                x = np.linalg.qr(x - x.mean(0))[0] * np.sqrt(len(x))
            return dict(x=x)
        x, y = gen.regression(c, n, p, self.q)
        return dict(x=x, y=y)

    def mats(self, c, data):
        return {k: gen.mat(c, v) for k, v in data.items()}

    def train(self, o, m):
        """Trains with Matrix arguments; the result of the training call (a message or None)."""
        if self.name == 'DIPLS':
            if self.mode == 'unsupervised':
                return o.initialize_unsupervised(m['xs'], m['xt'], m['ys'])
            if self.mode == 'supervised':
                return o.initialize_supervised(m['xs'], m['xt'], m['ys'], m['yt'])
            return o.initialize_semisupervised(m['xs'], m['xt'], m['xu'], m['ys'], m['yt'])
        if self.name in ('PCA', 'FastICA'):
            o.transform(m['x'])
            return None
        if 'x1' in m:
            return o.initialize(m['x1'], m['x2'])
        return o.initialize(m['x'], m['y'])

    def predictors(self, data):
        return data[{'DIPLS': 'xt', 'GLSW': 'x1', 'EPO': 'x1', 'YGradientGLSW': 'x1',
                     'YGradientEPO': 'x1'}.get(self.name, 'x')]

    def response(self, data):
        return data.get('y', data.get('ys'))

    # ---- observation --------------------------------------------------------------------------------------
    def query(self, o, xq, yq=None):
        """What a trained object answers for the query rows."""
        out = {}
        if self.pls:
            out['predict'] = o.predict(xq)
            out['transform'] = o.transform(xq)
        elif self.name == 'CCAFilter':
            out['transform'] = o.transform(xq)
            if yq is not None:
                out['transform_response'] = o.transform_response(yq)
        elif self.name not in ('PCA', 'FastICA'):
            out['transform'] = o.transform(xq)
        return out

    def exposed(self, o):
        """The matrices a trained object exposes."""
        out = {}
        if self.pls:
            for n in o.get_matrix_names():
                out[n] = o.get_matrix(n)
            if o.has_loadings():
                out['loadings'] = o.get_loadings()
        elif self.name == 'CCAFilter':
            out.update(proj_X=o.proj_X, proj_Y=o.proj_Y)
        elif self.name == 'PCA':
            out.update(scores=o.scores, loadings=o.loadings)
        elif self.name == 'FastICA':
            out.update(sources=o.sources, components=o.components, mixing=o.mixing, reconstruction=o.reconstruct())
        else:
            out['G'] = o.G
        return out

    def observe(self, o, xq, yq=None):
        out = {k: v.data.copy() for k, v in self.exposed(o).items()}
        out.update({'answer:' + k: v.data.copy() for k, v in self.query(o, xq, yq).items()})
        return out


def spec(c, name=None, k=None, prep=False, q=None):
    name = name or c.pick(PLS_NAMES + OTHER_NAMES)
    k = k or c.int(1, 3)
    params, makers, note, mode = {}, {}, '', None
    if name in PLS_NAMES:
        params['num_components'] = k
        if prep:
            params['preprocessing_type'] = c.pick(PREP)
    nq = 1
    if name in MULTI:
        nq = q or c.int(1, 3)
    if name == 'SIMPLS':
        if c.chance(0.3):
            params['num_coefficients'] = c.int(1, 3)
    elif name == 'NIPALS':
        params['deflation_mode'] = c.pick(list(DeflationMode))
        if params['deflation_mode'] is DeflationMode.CANONICAL:
            params['num_components'] = min(k, nq)
        params['norm_Y_weights'] = c.chance(0.4)
        params['tol'] = c.pick([1e-6, 1e-10])
        params['max_iter'] = c.pick([500, 50])
    elif name == 'CCARegression':
        params['num_components'] = 1
        params['norm_Y_weights'] = c.chance(0.4)
    elif name == 'KernelPLS':
        note, f = kernel(c)
        makers['kernel'] = f
        params['tol'] = c.pick([1e-6, 1e-9])
    elif name == 'OPLS':
        base = c.pick(['PLS1', 'SIMPLS'])
        kb = c.int(1, 2)
        note = f' base {base} {kb}'

        def build_base():
            b = CLASSES[base]()
            b.num_components = kb
            return b
        makers['base_PLS'] = build_base
        params['num_components'] = min(k, 2)
    elif name == 'DIPLS':
        params['lambda_'] = c.pick([1.0, 0.1, 2.0, 10.0])
        mode = c.pick(['unsupervised', 'supervised', 'semisupervised'])
    elif name == 'SparsePLS':
        params['lambda_'] = c.pick([0.0, 0.1, 0.3, 0.5, 0.8])
    elif name == 'PRM':
        params['C'] = c.pick([4.0, 2.0, 10.0, 1e6])
        if c.chance(0.2):
            params['num_SIMPLS_coefficients'] = c.int(1, 3)
    elif name == 'VCPLS':
        params['lambda_'] = c.pick([1.0, 0.1, 5.0])
    elif name == 'CCAFilter':
        nq = q or c.int(1, 3)
        params.update(kcca=c.int(1, nq), lambda_X=c.pick([1e-2, 0.5]), lambda_Y=c.pick([1e-2, 0.5]))
    elif name in ('GLSW', 'EPO', 'YGradientGLSW', 'YGradientEPO'):
        params['alpha'] = c.pick([1e-3, 0.1, 2.0])
        if 'EPO' in name:
            params['N'] = c.int(1, 9)
    elif name == 'PCA':
        params.update(variance=c.pick([0.95, 0.5, 0.8, 0.999]), max_columns=c.pick([-1, 1, 2, 3]), center=c.chance(0.5))
    elif name == 'FastICA':
        fun = c.int(0, 2)
        alpha = c.pick([1.0, 1.5])
        makers['fun'] = [lambda: LogCosH(alpha), Cube, Exponential][fun]
        note = f' fun {fun}'
        params.update(num_components=c.int(1, 5), whiten=c.chance(0.8), tol=c.pick([1e-4, 1e-6]),
                      algorithm=c.pick(list(Algorithm)), max_iter=c.pick([500, 20]))
    return Spec(name, params, makers, note, nq, mode)


def scramble(c, m):
    """Overwrites the contents of a Matrix in place through its public mutators."""
    r = c.int(0, 3)
    if r == 0:
        for i in range(m.num_rows()):
            for j in range(m.num_columns()):
                m.set(i, j, 13.25 - i + 3 * j)
    elif r == 1:
        for i in range(m.num_rows()):
            m.set_row(i, Matrix(np.full((1, m.num_columns()), -4.5 + i)))
    elif r == 2:
        for j in range(m.num_columns()):
            m.set_column(j, Matrix(np.full((m.num_rows(), 1), 2.5 - j)))
    else:
        m.mul_by_vector_modify(Matrix(np.full((m.num_rows(), 1), -3.0)))
        m.add_by_vector_modify(Matrix(np.full((m.num_rows(), 1), 11.0)))
