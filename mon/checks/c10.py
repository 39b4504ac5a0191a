"""C10: every output column of Savitzky-Golay against a least-squares polynomial fitted to its window."""
import numpy as np

from wai.ma.transformation import SavitzkyGolay, SavitzkyGolay2

from .. import gen, instr
from ..common import Skip, arr

RULE = ('all admissible windows up to 15 points (one-sided ones too), orders 2-5, derivative orders up to the order, '
        'windows up to 1201 points with orders up to 8, on random data and polynomials; distinct: different (parameters, data)')
ASSUMPTIONS = ['the derivative of order d is the polynomial coefficient of degree d (no factorial), as the exposed '
               'coefficients and stored references have it', 'windows whose normal equations have a condition number '
               'above 1e10 are outside the domain; tolerance 1e-13 times that number']


def worker_init():
    instr.install()


worker_report = instr.report


def setting(c, symmetric):
    if symmetric:
        k = c.int(1, 7)
        left = right = k
    else:
        left, right = c.pick([(0, c.int(2, 8)), (c.int(2, 8), 0), (c.int(0, 7), c.int(0, 7)), (c.int(1, 4), c.int(1, 4))])
    if left + right < 2:
        raise Skip()
    order = c.int(2, min(5, left + right))
    der = c.int(0, order)
    pos = np.arange(-left, right + 1, dtype=float)
    v = np.vander(pos, order + 1, increasing=True)
    cond = np.linalg.cond(v.T @ v)
    if cond > 1e10:
        raise Skip()
    return left, right, order, der, pos, v, cond


def build(c, left, right, order, der, two=False):
    o = SavitzkyGolay2() if two else SavitzkyGolay()
    params = dict(polynomial_order=order, derivative_order=der)
    if two:
        params['num_points'] = left
    else:
        params.update(num_points_left=left, num_points_right=right)
    for k in c.rng.permutation(list(params)):
        if getattr(o, str(k)) != params[str(k)] or c.chance(0.7):
            setattr(o, str(k), params[str(k)])
    return o


def reference(a, left, right, v, der):
    """Coefficient der of the least-squares fit in every window, by lstsq on the window itself."""
    w = left + right + 1
    cols = []
    for i in range(a.shape[1] - w + 1):
        sol = np.linalg.lstsq(v, a[:, i:i + w].T, rcond=None)[0]
        cols.append(sol[der])
    return np.column_stack(cols)


def fit(c):
    two = c.chance(0.35)
    left, right, order, der, pos, v, cond = setting(c, two)
    w = left + right + 1
    n, p = gen.rows(c, 1, 6, huge=2000), w + c.pick([0, 1, c.int(2, 12), gen.rows(c, 2, 12, huge=1500)])
    a = gen.values(c, n, p, c.pick(['normal', 'uniform', 'ints', 'offset', 'sparse', 'constant', 'sorted']))
    o = build(c, left, right, order, der, two)
    c.sig('fit', left, right, order, der, a)
    c.ev(f'order {order} derivative {der}')
    if c.chance(0.4):
        o.configure(gen.mat(c, a))
    r = o.transform(gen.mat(c, a))
    what = f'{"2" if two else ""} window {left}+{right} order {order} derivative {der}'
    d = c.shape(r, n, p - w + 1, what)
    mag = max(np.abs(a).max(), 1e-12)
    tol = 1e-13 * cond + 1e-10
    c.close(d, reference(a, left, right, v, der), what, tol, mag)
    co = c.shape(o.coefficients, 1, w, 'coefficients').ravel()
    c.close(co.reshape(1, -1), np.linalg.pinv(v)[der], 'coefficients', tol, 1.0)
    c.close(d, np.column_stack([(a[:, i:i + w] * co).sum(1) for i in range(p - w + 1)]),
            'the exposed coefficients are not those applied', 1e-10, mag)
    # another matrix by the same object
    b = c.rng.normal(size=(c.int(1, 3), w + c.int(0, 4)))
    c.close(o.transform(gen.mat(c, b)), reference(b, left, right, v, der), what + ' second matrix', tol, 3.0)
    c.sample({'left': left, 'right': right, 'order': order, 'derivative': der, 'shape': (n, p)})


def polynomial(c):
    """Polynomials up to the order are reproduced: value, slope, curvature."""
    left, right, order, der, pos, v, cond = setting(c, False)
    w = left + right + 1
    p = w + c.int(0, 8)
    n = c.int(1, 4)
    deg = c.int(0, order)
    co = c.rng.normal(size=(n, deg + 1))
    t = np.arange(p, dtype=float) - p // 2
    a = np.stack([np.polynomial.polynomial.polyval(t, k) for k in co])
    o = build(c, left, right, order, der)
    c.sig('poly', left, right, order, der, a)
    d = c.shape(o.transform(gen.mat(c, a)), n, p - w + 1, 'polynomial')
    at = t[left:left + p - w + 1]
    want = np.zeros((n, len(at)))
    fact = 1.0
    for i in range(2, der + 1):
        fact *= i
    for r in range(n):
        k = np.polynomial.polynomial.polyder(co[r], der) if der else co[r]
        want[r] = np.polynomial.polynomial.polyval(at, k) / fact
    c.close(d, want, f'polynomial of degree {deg}, window {left}+{right} order {order} derivative {der}',
            1e-13 * cond + 1e-10, max(np.abs(a).max(), 1e-9))


def variants(c):
    left, right, order, der, pos, v, cond = setting(c, True)
    w = 2 * left + 1
    a = c.rng.normal(size=(c.int(1, 4), w + c.int(0, 6)))
    c.sig('variants', left, order, der, a)
    x = arr(build(c, left, left, order, der, True).transform(gen.mat(c, a)))
    y = arr(build(c, left, left, order, der, False).transform(gen.mat(c, a)))
    c.close(x, y, f'symmetric variant differs from the general one, {left} {order} {der}', 1e-12 * cond + 1e-11, np.abs(y).max() + 1e-9)


def wide(c):
    """Wide windows and high orders, where powers of the positions exceed what integers hold."""
    left, right = c.pick([(0, c.int(9, 320)), (c.int(9, 320), 0), (c.int(5, 150), c.int(5, 150)), (c.int(100, 600),) * 2])
    order = c.int(2, 8)
    der = c.int(0, min(order, 4))
    w = left + right + 1
    s = float(max(left, right))
    pos = np.arange(-left, right + 1) / s
    v = np.vander(pos, order + 1, increasing=True)
    cond = np.linalg.cond(v.T @ v)
    if cond > 1e9:
        raise Skip()
    two = left == right and c.chance(0.5)
    n, p = c.int(1, 3), w + c.int(0, 3)
    a = gen.values(c, n, p, c.pick(['normal', 'uniform', 'ints', 'sorted']))
    o = build(c, left, right, order, der, two)
    c.sig('wide', left, right, order, der, a)
    c.ev('2 * order * log2(positions) > 63' if 2 * order * np.log2(s) > 63 else 'wide windows')
    what = f'wide window {left}+{right} order {order} derivative {der}'
    d = c.shape(o.transform(gen.mat(c, a)), n, p - w + 1, what) * s ** der
    c.close(d, reference(a, left, right, v, der), what, 1e-12 * cond + 1e-9, max(np.abs(a).max(), 1e-12))
    c.sample({'left': left, 'right': right, 'order': order, 'derivative': der})


def narrow(c):
    left, right, order, der, pos, v, cond = setting(c, False)
    w = left + right + 1
    p = c.int(1, w - 1)
    c.sig('narrow', left, right, p)
    o = build(c, left, right, order, der)
    a = gen.mat(c, c.rng.normal(size=(2, p)))
    try:
        r = o.transform(a)
    except Exception:
        c.ev('refusal')
        return
    c.ok(arr(r).shape == (2, 0), f'{p} columns under a window of {w} gave {arr(r).shape}')


def point(c):
    """A window of one point: smoothing gives the values themselves."""
    two = c.chance(0.5)
    n, p = c.int(1, 6), c.int(1, 9)
    a = gen.values(c, n, p, c.pick(['normal', 'ints', 'offset']))
    o = build(c, 0, 0, c.int(2, 5), 0, two)
    m = gen.mat(c, a)
    c.close(c.call('transform', o.transform, m), a, 'a window of one point', 1e-12)
    c.sig('point', two, a)


SCENARIOS = [('point', point, 60, 600), ('fit', fit, 3500, 60000), ('polynomial', polynomial, 2000, 40000), ('variants', variants, 600, 8000),
             ('wide', wide, 250, 6000), ('narrow', narrow, 200, 2000)]
