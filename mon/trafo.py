"""Transformations with random admissible parameters, and data in their domain."""
import numpy as np

from wai.ma.transformation import (FFT, Center, Log, MultiplicativeScatterCorrection, OutputMode, PassThrough,
                                   PowerTransformer, QuantileTransformer, RobustScaler, RowNorm, SavitzkyGolay,
                                   SavitzkyGolay2, Standardize)
from wai.ma.transformation._MultiplicativeScatterCorrection import RangeBased

from . import gen

CLASSES = dict(Center=Center, Standardize=Standardize, RowNorm=RowNorm, RobustScaler=RobustScaler,
               PowerTransformer=PowerTransformer, QuantileTransformer=QuantileTransformer, Log=Log, FFT=FFT,
               PassThrough=PassThrough, SavitzkyGolay=SavitzkyGolay, SavitzkyGolay2=SavitzkyGolay2,
               MSC=MultiplicativeScatterCorrection)
NAMES = tuple(CLASSES)
FITTED = ('Center', 'Standardize', 'RobustScaler', 'PowerTransformer', 'QuantileTransformer', 'MSC')


class Trafo:
    def __init__(self, name, params, ranges=None):
        self.name, self.params, self.ranges = name, params, ranges

    def __repr__(self):
        return f'{self.name}({self.params}{self.ranges or ""})'

    def build(self):
        o = CLASSES[self.name]()
        self.assign(o)
        return o

    def assign(self, o):
        for k, v in self.params.items():
            setattr(o, k, v)
        if self.name == 'MSC':
            rb = RangeBased()
            rb.ranges = list(self.ranges)
            o.correction = rb

    def invertible(self, o=None):
        if self.name == 'FFT':
            return self.params['output_mode'] in (OutputMode.REAL_AND_IMAG_PAIRS, OutputMode.AMPL_ANGLE_PAIRS, 3, 12)
        return self.name not in ('SavitzkyGolay', 'SavitzkyGolay2', 'MSC')


def params(c, name):
    if name == 'RobustScaler':
        return dict(with_centering=c.chance(0.8), with_scaling=c.chance(0.8),
                    quantile_range=c.pick([(25.0, 75.0), (10.0, 90.0), (5.0, 50.0), (40.0, 99.0)]))
    if name == 'PowerTransformer':
        return dict(method=c.pick(['yeo-johnson', 'box-cox']), standardise=c.chance(0.6))
    if name == 'QuantileTransformer':
        return dict(n_quantiles=c.pick([1000, 5, 10, 3]), output_distribution=c.pick(['uniform', 'normal']))
    if name == 'Log':
        return dict(base=c.pick([np.e, 2.0, 10.0, 0.5, 3]), offset=c.pick([1.0, 0.0, 5.0, 2]))
    if name == 'FFT':
        return dict(output_mode=c.pick(list(OutputMode) + [3, 12]), orthonormalisation=c.chance(0.5))
    if name == 'SavitzkyGolay':
        left, right = c.int(0, 4), c.int(0, 4)
        if left + right < 2:
            left += 2
        order = c.int(2, min(4, left + right))
        return dict(polynomial_order=order, derivative_order=c.int(0, min(order, 2)), num_points_left=left,
                    num_points_right=right)
    if name == 'SavitzkyGolay2':
        k = c.int(1, 4)
        order = c.int(2, min(4, 2 * k))
        return dict(polynomial_order=order, derivative_order=c.int(0, min(order, 2)), num_points=k)
    return {}


def spec(c, name=None):
    name = name or c.pick(NAMES)
    ranges = None
    if name == 'MSC':
        ranges = c.pick([[(-1.0, 101.0)], [(-1.0, 50.0), (50.5, 101.0)], [(20.0, 80.0)]])
    return Trafo(name, params(c, name), ranges)


def data(c, name, like=None, n=None, p=None):
    """Data in the domain of every parameter setting of that transformation."""
    if like is not None:
        p = like.shape[1]
    if name == 'MSC':  # wave numbers and one amplitude column per spectrum; the wave numbers stay the same
        if like is not None:
            n = like.shape[0]
            w = like[:, 0]
        else:
            n = n or gen.rows(c, 12, 24)
            w = np.linspace(0, 100, n)
        base = np.sin(w / 9.0) + 0.1 * w / 10
        m = 1 if like is not None and c.chance(0.5) else c.int(1, 4)
        amp = [base * c.uni(0.5, 2) + c.uni(-1, 1) + 0.05 * c.rng.normal(size=n) for _ in range(m)]
        return np.column_stack([w] + amp)
    n = n or gen.rows(c, 2, 14)
    if p is None:
        p = gen.rows(c, 10, 14) if name.startswith('Savitzky') else gen.rows(c, 1, 9)
    if name == 'RowNorm':
        p = max(p, 2)
    if name in ('PowerTransformer', 'QuantileTransformer'):
        n = max(n, 6)
        return np.exp(c.rng.normal(size=(n, p)) * 0.6) * c.pick([1.0, 2.0]) + 0.05
    if name == 'Log':
        return c.rng.uniform(0.05, 8, size=(n, p))
    a = c.rng.normal(size=(n, p)) * c.pick([1.0, 3.0]) + c.pick([0.0, 4.0, -2.0])
    return a
