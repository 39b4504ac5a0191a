"""C11: spectra against a direct evaluation of the discrete Fourier sum."""
import numpy as np

from wai.ma.transformation import FFT, OutputMode

from .. import gen, instr
from ..common import arr, is_close

RULE = ('all six modes (by enum member, name and number), both normalisations, 1-40 columns, 1-8 rows; distinct: '
        'different (mode, normalisation, data)')
ASSUMPTIONS = ['phase angles are compared modulo 2 pi, and only where the amplitude exceeds 1e-9 of the largest']


def worker_init():
    instr.install()


worker_report = instr.report


def spectrum(a, ortho):
    """Non-negative frequencies of every row, by the defining sum."""
    p = a.shape[1]
    k = np.arange(p // 2 + 1)
    e = np.exp(-2j * np.pi * ((k[:, None] * np.arange(p)[None, :]) % p) / p)
    s = a @ e.T
    s[:, 0] = s[:, 0].real
    if p % 2 == 0:
        s[:, -1] = s[:, -1].real
    return s / np.sqrt(p) if ortho else s


def layout(s, p, mode):
    """(expected array, array of moduli 'angle' mask and significance)"""
    pairs = list(range(1, (p - 1) // 2 + 1))
    ny = p % 2 == 0
    n = s.shape[0]
    if mode is OutputMode.REAL_COMPONENT_ONLY:
        return s.real, None
    if mode is OutputMode.IMAG_COMPONENT_ONLY:
        return s.imag, None
    if mode is OutputMode.AMPLITUDE_ONLY:
        return np.abs(s), None
    if mode is OutputMode.PHASE_ANGLE_ONLY:
        return np.angle(s), np.abs(s)
    cols, amp = [s[:, 0].real], [np.full(n, np.nan)]
    for k in pairs:
        if mode is OutputMode.REAL_AND_IMAG_PAIRS:
            cols += [s[:, k].real, s[:, k].imag]
            amp += [np.full(n, np.nan)] * 2
        else:
            cols += [np.abs(s[:, k]), np.angle(s[:, k])]
            amp += [np.full(n, np.nan), np.abs(s[:, k])]
    if ny:
        cols.append(s[:, -1].real)
        amp.append(np.full(n, np.nan))
    return np.column_stack(cols), np.column_stack(amp)


def agrees(d, want, amp, mag):
    if d.shape != want.shape or not np.isfinite(d).all():
        return False
    if amp is None:
        return is_close(d, want, 1e-9, mag)
    ang = ~np.isnan(amp)
    plain = ~ang
    if plain.any() and np.abs(d[plain] - want[plain]).max() > 1e-9 * mag:
        return False
    if ang.any():
        sig = amp[ang] > 1e-6 * mag
        diff = np.abs(np.exp(1j * d[ang]) - np.exp(1j * want[ang]))
        if (sig & (diff > 1e-6)).any() or np.abs(d[ang]).max() > np.pi + 1e-9:
            return False
    return True


def build(c, mode, ortho):
    o = FFT()
    k = c.int(0, 2)
    if mode is not OutputMode.AMPLITUDE_ONLY or c.chance(0.5):
        o.output_mode = [mode, mode.value, mode.name][k]
    if ortho or c.chance(0.3):
        o.orthonormalisation = ortho
    return o


def rows(c):
    mode = c.pick(list(OutputMode))
    ortho = c.chance(0.5)
    n = c.pick([1, 1, 2, 3, 4, gen.rows(c, 5, 8, 100, 2500)])
    p = c.pick([1, 2, 3, 4, 5, 6, gen.rows(c, 7, 40, huge=3000)])
    a = gen.values(c, n, p, c.pick(['normal', 'uniform', 'ints', 'offset', 'sparse', 'constant', 'negative']))
    if c.chance(0.3):  # pure tones
        t = np.arange(p)
        a = np.stack([np.cos(2 * np.pi * c.int(0, p) * t / p + c.uni(-3, 3)) * c.uni(0.5, 2) for _ in range(n)])
    o = build(c, mode, ortho)
    c.sig(mode.name, ortho, a)
    c.ev(mode.name)
    if c.chance(0.3):
        o.configure(gen.mat(c, a))
    m = gen.mat(c, a)
    d = arr(o.transform(m), mode.name)
    want, amp = layout(spectrum(a, ortho), p, mode)
    mag = max(np.abs(a).sum(1).max(), 1e-12)
    what = f'{mode.name} ortho={ortho} of {n}x{p}'
    c.ok(d.shape == want.shape, f'{what}: shape {d.shape} expected {want.shape}')
    if not agrees(d, want, amp, mag):
        roll = n // 2
        if n > 1 and agrees(d, np.roll(want, roll, 0), None if amp is None else np.roll(amp, roll, 0), mag):
            c.known('KF2', what)
        else:
            c.fail(f'{what}: {d.tolist()!r:.300} expected {want.tolist()!r:.300}')
    c.same(m, a, 'the matrix')
    c.sample({'mode': mode.name, 'ortho': ortho, 'shape': (n, p)})


def unknown(c):
    bad = c.pick([0, 5, 6, 7, 9, 13, -1, 'AMPLITUDE', 'foo', None, 2.5])
    c.sig('unknown', repr(bad))

    def use():
        o = FFT()
        o.output_mode = bad
        return o.transform(gen.mat(c, np.ones((1, 4))))
    c.refused(use, f'output mode {bad!r}')
    o = FFT()
    mode = c.pick(list(OutputMode))
    o.output_mode = mode
    try:
        o.output_mode = bad
    except Exception:
        pass
    c.ok(o.output_mode is mode, f'mode changed by {bad!r}')


SCENARIOS = [('rows', rows, 5000, 100000), ('unknown', unknown, 100, 400)]
