"""C12: scatter correction against an independent per-range regression."""
import numpy as np

from wai.ma.core.matrix import Matrix, factory
from wai.ma.transformation import AbstractTransformation, MultiplicativeScatterCorrection, PassThrough
from wai.ma.transformation._MultiplicativeScatterCorrection import RangeBased

from .. import gen, instr
from ..common import Skip, arr

RULE = ('spectra with ascending, descending or shuffled wave numbers, one to four ranges (bounds on wave numbers, touching, '
        'overlapping, disjoint), with and without pre-filter, several queries per fitted object; distinct: different '
        '(ranges, wave numbers, spectra)')
ASSUMPTIONS = ['ranges hold at least three distinct average amplitudes and a slope well away from zero (otherwise the '
               'correction divides by zero)', 'overlapping ranges are applied one after the other, each with the '
               'regression of the original (pre-filtered) spectrum, as the code documents by its loop',
               'pre-filters keep the wave-number column']


class Warp(AbstractTransformation):
    """A pre-filter that leaves wave numbers alone."""

    def __init__(self, k):
        super().__init__()
        self.k = k

    def configure(self, data):
        self.configured = True

    def do_transform(self, data):
        d = data.data.copy()
        d[:, 1] = warp(d[:, 1], self.k)
        return Matrix(d)

    def do_inverse_transform(self, data):
        raise NotImplementedError


def warp(v, k):
    return v + k * np.tanh(v) + 0.3 * k


def worker_init():
    instr.install()


worker_report = instr.report


def waves(c, n):
    w = np.cumsum(c.rng.uniform(0.5, 2, size=n)) + c.pick([0.0, 400.0, -10.0])
    r = c.int(0, 3)
    if r == 1:
        w = w[::-1].copy()
    elif r == 2:
        w = w[c.perm(n)]
    return w


def make_ranges(c, w):
    s = np.sort(w)
    n = len(s)
    out = []
    for _ in range(c.int(1, 4)):
        i = c.int(0, n - 4)
        j = c.int(i + 3, n - 1)
        lo, hi = s[i], s[j]
        if c.chance(0.4):
            lo -= 0.01
        if c.chance(0.4):
            hi += 0.01
        if out and c.chance(0.3):
            lo = min(out[-1][1], s[-4])
            hi = max(hi, s[-1])
        out.append((float(lo), float(hi)))
    if c.chance(0.2):
        out = [(float(s[0] - 1), float(s[-1] + 1))]
    if c.chance(0.1):
        out.append((float(s[-1] + 5), float(s[-1] + 5)))
        out.pop()
    return out


def reference(w, avg, amp, ranges, filt):
    res = amp.copy()
    slopes = []
    for lo, hi in ranges:
        k = (w >= lo) & (w <= hi)
        x, y = avg[k], filt[k]
        xc = x - x.mean()
        if len(x) < 3 or (xc ** 2).sum() < 1e-2:
            raise Skip()
        b = (xc * (y - y.mean())).sum() / (xc ** 2).sum()
        a = y.mean() - b * x.mean()
        if abs(b) < 0.05:
            raise Skip()
        res[k] = (res[k] - a) / b
        slopes.append(b)
    return res


def correct(c):
    n = c.pick([c.int(8, 30), c.int(8, 30), c.int(4, 7), gen.rows(c, 31, 90, huge=1500)])
    w = waves(c, n)
    base = np.sin(w / 3.0) + 0.05 * w
    m = c.pick([c.int(1, 5), c.int(1, 5), gen.rows(c, 6, 40, 150, 600)])
    amps = [base * c.uni(0.5, 2) + c.uni(-1, 1) + 0.1 * c.rng.normal(size=n) for _ in range(m)]
    o = MultiplicativeScatterCorrection()
    rb = RangeBased() if c.chance(0.5) else o.correction
    ranges = make_ranges(c, w)
    rb.ranges = list(ranges)
    pre = c.int(0, 2)
    k = c.pick([0.5, -0.3])
    if pre == 1:
        rb.prefilter = Warp(k)
    elif pre == 2:
        rb.prefilter = PassThrough()
    o.correction = rb
    spectra = [gen.mat(c, np.column_stack([w, a])) if c.chance(0.5) else factory.create_spectrum(w.tolist(), a.tolist())
               for a in amps]
    conf = o.create_configuration_matrix(spectra) if c.chance(0.7) else gen.mat(c, np.column_stack([w] + amps))
    c.same(conf, np.column_stack([w] + amps), 'configuration matrix')
    o.configure(conf)
    avg = np.mean(amps, axis=0)
    c.sig(repr(ranges), w, *amps)
    c.ev(f'{len(ranges)} ranges')
    c.ev('prefilter ' + str(pre))
    for q in range(3):
        if q == 0 and pre != 1:
            s, t = c.pick([2.0, 0.5, -1.5]), c.uni(-3, 3)
            amp = avg * s + t
        else:
            amp = amps[c.int(0, m - 1)] * c.uni(0.8, 1.2) + 0.1 * c.rng.normal(size=n)
        want = reference(w, avg, amp, ranges, warp(amp, k) if pre == 1 else amp)
        if np.abs(want).max() > 1e6:
            raise Skip()
        x = gen.mat(c, np.column_stack([w, amp]))
        d = c.shape(o.transform(x), n, 2, 'corrected spectrum')
        c.ok(bool(np.all(d[:, 0] == w)), 'wave numbers changed')
        outside = np.ones(n, bool)
        for lo, hi in ranges:
            outside &= ~((w >= lo) & (w <= hi))
        c.ok(bool(np.all(d[outside, 1] == amp[outside])), 'amplitudes outside every range changed')
        c.close(d[:, 1:], want.reshape(-1, 1), f'corrected with ranges {ranges}', 1e-7, max(np.abs(want).max(), 1.0))
        if q == 0 and pre != 1 and len(ranges) == 1:
            c.close(d[~outside, 1:], avg[~outside].reshape(-1, 1), 'affine distortion of the average not undone', 1e-7,
                    max(np.abs(avg).max(), 1.0))
            c.ev('affine distortion restored')
    c.sample({'ranges': ranges, 'points': n, 'spectra': m})


def misc(c):
    o = MultiplicativeScatterCorrection()
    n = c.int(4, 12)
    w = waves(c, n)
    c.sig('misc', w)
    c.refused(lambda: o.create_configuration_matrix([]), 'no spectra')
    amps = [c.rng.normal(size=n) for _ in range(c.pick([c.int(1, 6), c.int(7, 30)]))]
    sp = [gen.mat(c, np.column_stack([w, a])) for a in amps]
    c.same(o.create_configuration_matrix(sp), np.column_stack([w] + amps), 'configuration matrix')
    # spectra measured at slightly different wave numbers: those of the first count
    sp = [gen.mat(c, np.column_stack([w + (0.01 * i if i else 0), a])) for i, a in enumerate(amps)]
    c.same(o.create_configuration_matrix(sp), np.column_stack([w] + amps), 'configuration matrix of uneven spectra')
    # without ranges nothing is corrected
    x = np.column_stack([w, amps[0]])
    c.same(o.transform(gen.mat(c, x)), x, 'correction without ranges')
    a = arr(o.average)
    c.close(a, x, 'learned average of a single spectrum', 1e-12)


SCENARIOS = [('correct', correct, 5000, 80000), ('misc', misc, 400, 4000)]
