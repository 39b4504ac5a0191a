"""C14: kernel matrices entry by entry against the documented formulas."""
import numpy as np

from wai.ma.core.matrix import Matrix
from wai.ma.transformation.kernel import AbstractKernel, LinearKernel, PolyKernel, RBFKernel

from .. import gen, instr
from ..common import arr, is_close

RULE = ('random parameters (explicit and automatic gamma, degrees 1-5, offsets), matrices of different row counts and '
        'widths, kernel objects reused over several calls and reparametrised in between; distinct: different (kernel, '
        'parameters, data)')
ASSUMPTIONS = ['values are judged to 1e-9 of the largest value of the matrix']


class Custom(AbstractKernel):
    """A kernel of the user's own: the generic pairwise evaluation."""

    def apply_vector(self, x, y):
        return float(np.tanh((x.data * y.data).sum()) + np.abs(x.data - y.data).max())


def worker_init():
    instr.install()


worker_report = instr.report


class K:
    def __init__(self, c):
        self.kind = c.pick(['linear', 'poly', 'poly', 'rbf', 'rbf', 'custom'])
        self.o = {'linear': LinearKernel, 'poly': PolyKernel, 'rbf': RBFKernel, 'custom': Custom}[self.kind]()
        self.d, self.c0 = 3, 0.0
        self.g = {'poly': np.nan, 'rbf': 1.0}.get(self.kind)
        self.change(c, 0.6)

    def change(self, c, p):
        if self.kind == 'poly' and c.chance(p):
            self.d = c.int(1, 5)
            self.o.degree = self.d
        if self.kind == 'poly' and c.chance(p):
            self.c0 = c.pick([0.0, 1.0, -0.5, 2])
            self.o.coef_0 = self.c0
        if self.kind in ('poly', 'rbf') and c.chance(p):
            self.g = c.pick([0.1, 0.5, 1.0, 2.0, np.nan, float('nan')])
            self.o.gamma = self.g
        if self.kind == 'poly' and c.chance(0.3):
            self.o.degree = c.pick([0, -1, -5])  # ignored
            c.ok(self.o.degree == self.d, 'an invalid degree was not ignored')

    def __repr__(self):
        return f'{self.kind}(degree={self.d}, coef_0={self.c0}, gamma={self.g})'

    def value(self, x, y, squared=True):
        g = 1 / len(x) if self.g is not None and self.g != self.g else self.g
        if self.kind == 'linear':
            return float(np.dot(x, y))
        if self.kind == 'poly':
            return float((g * np.dot(x, y) + self.c0) ** self.d)
        if self.kind == 'rbf':
            d = float(((x - y) ** 2).sum())
            return float(np.exp(-g * (d if squared else np.sqrt(d))))
        return float(np.tanh((x * y).sum()) + np.abs(x - y).max())

    def matrix(self, a, b, squared=True):
        return np.array([[self.value(x, y, squared) for y in b] for x in a])


def judge(c, k, d, a, b, what):
    """d is the kernel matrix of the rows of a and b, up to finding KF7."""
    want = k.matrix(a, b)
    c.ok(d.shape == want.shape, f'{what}: shape {d.shape} expected {want.shape}')
    scale = max(np.abs(want).max(), 1e-300)
    if not is_close(d, want, 1e-9, scale):
        if k.kind == 'rbf' and is_close(d, k.matrix(a, b, False), 1e-9, 1.0):
            c.known('KF7', what)
        else:
            c.fail(f'{what} {k}: {d.tolist()!r:.300} expected {want.tolist()!r:.300}')
    c.checks += 1


def use(c):
    ks = [K(c) for _ in range(c.int(1, 2))]
    for _ in range(c.int(1, 5)):
        k = c.pick(ks)
        p = c.pick([1, 2, c.int(3, 9)])
        n, m = c.pick([1, c.int(2, 8)]), c.pick([1, c.int(2, 8)])
        a = c.rng.normal(size=(n, p)) * c.pick([1.0, 0.3])
        b = c.rng.normal(size=(m, p)) * c.pick([1.0, 0.3])
        if c.chance(0.03):
            n, m = c.int(9, 45), c.int(9, 45)
            a, b = c.rng.normal(size=(n, p)), c.rng.normal(size=(m, p))
        if c.chance(0.2):
            b[c.int(0, m - 1)] = a[c.int(0, n - 1)]
        if c.chance(0.3):  # two matrices that resemble each other
            b, m = a.copy(), n
            kind = c.pick(['same', 'permuted', 'one cell', 'one row', 'sign', 'prefix', 'scaled', 'swap'])
            if kind == 'permuted':
                b = b[c.perm(n)]
            elif kind == 'one cell':
                b[c.int(0, n - 1), c.int(0, p - 1)] += 0.7
            elif kind == 'one row':
                b[c.int(0, n - 1)] = c.rng.normal(size=p)
            elif kind == 'sign':
                b = -b
            elif kind == 'prefix':
                m = c.int(1, n)
                b = b[:m]
            elif kind == 'scaled':
                b = b * 1.5
            elif kind == 'swap':
                b[[0, -1]] = b[[-1, 0]]
            c.ev('alike: ' + kind)
        A, B = gen.mat(c, a), gen.mat(c, b)
        c.sig(repr(k), a, b)
        c.ev(k.kind)
        r = c.int(0, 4)
        if r <= 1:
            d = arr(k.o.apply_matrix(A, B), 'kernel matrix')
            judge(c, k, d, a, b, 'apply_matrix(X, Y)')
            i, j = c.int(0, n - 1), c.int(0, m - 1)
            v = k.o.apply_vector(A.get_row(i), B.get_row(j))
            c.scalar(v, d[i, j], f'{k}: entry {i},{j} and the pairwise evaluation', 1e-9, max(np.abs(d).max(), 1e-300))
        elif r == 2:
            d = arr(k.o.apply_matrix(A), 'kernel matrix')
            judge(c, k, d, a, a, 'apply_matrix(X)')
            c.ok(is_close(d, d.T.copy(), 1e-12, max(np.abs(d).max(), 1e-300)), f'{k}: not symmetric')
            c.close(k.o.apply_matrix(A, A), d, f'{k}: one- and two-argument forms', 1e-10, max(np.abs(d).max(), 1e-300))
            c.close(k.o.apply_matrix(A, A.copy()), d, f'{k}: one- and two-argument forms', 1e-10,
                    max(np.abs(d).max(), 1e-300))
        elif r == 3:
            v = k.o.apply_vector(gen.mat(c, a[:1]), gen.mat(c, b[:1]))
            judge(c, k, np.array([[float(v)]]), a[:1], b[:1], 'apply_vector')
        else:
            k.change(c, 0.7)
        if p > 1 and c.chance(0.2):
            bad = gen.mat(c, c.rng.normal(size=(2, p + 1)))
            c.refused(lambda: k.o.apply_matrix(A, bad), f'{k}: widths {p} and {p + 1}') if k.kind != 'custom' else None
        c.same(A, a, 'first matrix')
        c.same(B, b, 'second matrix')
        if c.chance(0.4):  # the caller changes the matrices and asks again
            if c.chance(0.7) and A.data.dtype == float:
                a = gen.edited(c, a, 1.0)
                gen.rewrite(c, A, a)
            if c.chance(0.7) and B.data.dtype == float:
                b = gen.edited(c, b, 1.0)
                gen.rewrite(c, B, b)
            judge(c, k, arr(k.o.apply_matrix(A, B)), a, b, 'apply_matrix(X, Y) of matrices changed in place')
            judge(c, k, arr(k.o.apply_matrix(A)), a, a, 'apply_matrix(X) of a matrix changed in place')
            v = k.o.apply_vector(A.get_row(0), B.get_row(0))
            judge(c, k, np.array([[float(v)]]), a[:1], b[:1], 'apply_vector')
            c.ev('changed in place')
    c.sample({'kernels': [repr(k) for k in ks]})


def units(c):
    """Data in very small or large units, with the kernel parameters chosen to match."""
    k = K(c)
    while k.kind not in ('poly', 'rbf', 'linear'):
        k = K(c)
    u = 10.0 ** c.int(-12, 9)
    if k.kind != 'linear':
        # the radial kernel is documented with the squared distance but (finding KF7) uses the distance itself
        k.g = c.pick([0.1, 0.5, 1.0, 2.0]) / (u * u if k.kind == 'poly' or c.chance(0.5) else u)
        k.o.gamma = k.g
    p = c.pick([1, 2, c.int(3, 9)])
    a = c.rng.normal(size=(c.int(1, 6), p)) * u
    b = c.rng.normal(size=(c.int(1, 6), p)) * u
    if c.chance(0.3):
        i, j = c.int(0, len(a) - 1), c.int(0, len(b) - 1)
        b[j] = a[i]
        if c.chance(0.5):
            b[j, c.int(0, p - 1)] *= 1 + 1e-6
    judge(c, k, arr(k.o.apply_matrix(gen.mat(c, a), gen.mat(c, b))), a, b, f'apply_matrix(X, Y) in units of {u}')
    judge(c, k, arr(k.o.apply_matrix(gen.mat(c, a))), a, a, f'apply_matrix(X) in units of {u}')
    c.ev(f'units:{k.kind}')
    c.sig('units', repr(k), a, b)


SCENARIOS = [('units', units, 1000, 20000), ('use', use, 8000, 150000)]
