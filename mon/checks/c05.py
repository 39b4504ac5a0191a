"""C05: the byte stream decoded by an independent decoder against what the live object does."""
import io
import os
import shutil
import struct
import tempfile

import numpy as np

from wai.ma.algorithm.pls import SIMPLS
from wai.ma.core import Serialisable
from wai.ma.core.matrix import Matrix

from .. import gen, instr, trafo, zoo
from ..common import arr

RULE = ('histories of configuring, training, assigning, resetting with the state written through every route after '
        'steps and decoded independently; distinct: different (class, parameters, contents)')
ASSUMPTIONS = ['dimensions above 2^31 cannot be built here; the 32-bit limit is exercised on integers directly']


# file names that are taken as they are
NAMES = ['state.bin', 'state', 'state.tar.gz', 'a b.bin', '$HOME.bin', '${PATH}', '~x', '~', '*.bin', 'st\u00e4te.bin', '.hidden', "it's.bin",
         'a%d%20.bin', 'UPPER.BIN', ' lead', 'trail ', '[1]?.bin', 'a;b&c', '-dash', 'n' * 120]

def worker_init():
    instr.install()


worker_report = instr.report


class Decoder:
    def __init__(self, b):
        self.b, self.i = b, 0

    def take(self, n):
        r = self.b[self.i:self.i + n]
        assert len(r) == n, 'truncated'
        self.i += n
        return r

    def i32(self):
        return struct.unpack('<i', self.take(4))[0]

    def f64(self):
        return struct.unpack('<d', self.take(8))[0]

    def matrix(self):
        n, p = self.i32(), self.i32()
        return np.frombuffer(self.take(8 * n * p), '<f8').reshape(n, p).copy()

    def end(self):
        return self.i == len(self.b)


def routes(c, o, what):
    """The bytes of the state, the same by every route."""
    s = io.BytesIO()
    s.write(b'before')
    o.serialise_state(s)
    b = s.getvalue()
    c.ok(b.startswith(b'before') and s.tell() == len(b), f'{what}: stream position or earlier content disturbed')
    b = b[6:]
    g = o.get_serialised_state()
    c.ev('fetched as bytes')
    if g != b:
        if g == b'':
            c.known('KF1', what)
        else:
            c.fail(f'{what}: get_serialised_state gives {len(g)} other bytes than the stream ({len(b)})')
    if c.chance(0.5):
        d = tempfile.mkdtemp(prefix='verif-c05-')
        here = os.getcwd()
        try:
            k = c.int(0, 3)
            if k == 0:
                f = os.path.join(d, c.pick(NAMES))
            elif k == 1:
                f = os.path.join(d, 'new', 'deeper', 'state')
            elif k == 2:
                f = os.path.join(d, 'old.bin')
                with open(f, 'wb') as h:
                    h.write(b'x' * 100000)
            else:
                os.chdir(d)
                f = c.pick(['bare.bin', c.pick(NAMES), os.path.join(c.pick(NAMES[3:]), 'x.bin'), os.path.join('sub', 'rel.bin'), os.path.join('.', 'dot.bin')])
            c.ev(f'file route {k}')
            c.call('save_state', o.save_state, f)
            if k != 2 and c.chance(0.3):
                o.save_state(f)
            with open(f, 'rb') as h:
                c.ok(h.read() == b, f'{what}: save_state wrote other bytes than the stream')
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)
    return Decoder(b)


def matrix(c):
    n, p = gen.shape(c, False)
    a = gen.values(c, n, p)
    if c.chance(0.3):
        a = gen.special(c, a)
    m = gen.mat(c, a)
    for _ in range(c.int(0, 2)):
        i, j = c.int(0, n - 1), c.int(0, p - 1)
        m.set(i, j, 4.25 + i)
        a = a.copy()
        a[i, j] = 4.25 + i
    c.sig('matrix', a)
    d = routes(c, m, 'Matrix')
    x = d.matrix()
    c.ok(d.end(), 'bytes after the matrix')
    c.ok(x.shape == a.shape and x.tobytes() == np.ascontiguousarray(a).tobytes(), 'decoded matrix differs')
    c.sample({'shape': (n, p)})


def empty(c):
    n, p = c.pick([(0, 3), (2, 0), (0, 0)])
    m = Matrix(np.zeros((n, p)))
    c.sig('empty', n, p)
    s = io.BytesIO()
    m.serialise_state(s)
    d = Decoder(s.getvalue())
    c.ok((d.i32(), d.i32()) == (n, p) and d.end(), 'empty matrix')


def apply_sg(a, w):
    k = len(w)
    return np.column_stack([(a[:, i:i + k] * w).sum(1) for i in range(a.shape[1] - k + 1)])


def decode_judge(c, name, t, o, d, a, probe):
    """The decoded state is what the live object applies to a probe."""
    out = arr(o.transform(gen.mat(c, probe)), 'transform')
    if name == 'Standardize':
        mu, sd = d.matrix(), d.matrix()
        c.ok(mu.shape == (1, a.shape[1]) == sd.shape, f'shapes {mu.shape} {sd.shape}')
        c.ok(bool(np.all(mu == arr(o.get_means()))) and bool(np.all(sd == arr(o.get_std_devs()))), 'live means/deviations')
        c.close(out, (probe - mu) / sd, 'transform by the decoded state', 1e-12)
        c.close(mu, a.mean(0), 'decoded means', 1e-11, np.abs(a).max() + 1e-300)
    elif name == 'Log':
        base, f, off = d.f64(), d.f64(), d.f64()
        c.ok(base == float(o.base) and off == float(o.offset), f'base/offset {base} {off}')
        c.close(np.array([[f]]), np.array([[1 / np.log(base)]]), 'conversion factor', 1e-12)
        c.close(out, np.log(probe + off) * f, 'transform by the decoded state', 1e-12, np.abs(out).max() + 1)
    else:
        w = d.matrix()
        c.ok(w.shape[0] == 1 and bool(np.all(w == arr(o.coefficients))), 'live coefficients')
        k = t.params.get('num_points')
        left, right = (k, k) if k is not None else (t.params['num_points_left'], t.params['num_points_right'])
        c.ok(w.shape == (1, left + right + 1), f'{w.shape} coefficients for window {left}+{right}')
        c.close(out, apply_sg(probe, w.ravel()), 'transform by the decoded state', 1e-9, np.abs(out).max() + 1e-9)
    c.ok(d.end(), f'{name}: bytes after the last member')


def transformation(c):
    name = c.pick(['Standardize', 'Log', 'SavitzkyGolay', 'SavitzkyGolay2'])
    t = trafo.spec(c, name)
    o = t.build()
    stateless = name == 'Log'
    fitted = None
    first = trafo.data(c, name)
    probe = trafo.data(c, name, first)
    log = []
    for _ in range(c.int(2, 9)):
        w = c.pick(['configure', 'transform', 'reset', 'assign', 'serialise', 'serialise'])
        log.append(w)
        if w == 'configure':
            x = trafo.data(c, name, first)
            if name == 'Standardize' and c.chance(0.3):
                x[:, c.int(0, x.shape[1] - 1)] = c.pick([0.0, 3.0, 0.1])
            o.configure(gen.mat(c, x))
            fitted = x
        elif w == 'transform':
            x = trafo.data(c, name, first)
            o.transform(gen.mat(c, x))
            fitted = x if fitted is None else fitted
        elif w == 'reset':
            o.reset()
            fitted = None
        elif w == 'assign':
            t = trafo.spec(c, name)
            t.assign(o)
            if t.params:
                fitted = None
        else:
            if fitted is None and not stateless:
                c.refused(lambda: o.serialise_state(io.BytesIO()), f'{name} unconfigured after {log}')
                c.refused(lambda: o.get_serialised_state(), f'{name} unconfigured after {log}')
                if c.chance(0.5):
                    refused_save(c, o, f'{name} unconfigured after {log}')
            else:
                d = c.call('serialising', routes, c, o, repr(t))
                decode_judge(c, name, t, o, d, fitted if fitted is not None else first, probe)
    c.sig(name, repr(t), log, probe)
    c.sample({'object': repr(t), 'history': log})


def simpls(c):
    o = SIMPLS()
    o.num_components = 1
    trained = None
    log = []
    k = 1
    for _ in range(c.int(2, 8)):
        w = c.pick(['train', 'train', 'assign', 'reset', 'bad', 'serialise', 'serialise', 'predict'])
        log.append(w)
        if w == 'assign':
            k = c.int(1, 3)
            o.num_components = k
            o.num_coefficients = c.pick([0, 0, 2])
            trained = None
        elif w == 'reset':
            o.reset()
            trained = None
        elif w == 'bad':
            x, y = gen.regression(c, 8, 4)
            try:
                r = o.initialize(gen.mat(c, x), gen.mat(c, y[:5]))
            except Exception:
                r = 'error'
            c.ok(r is not None, 'trained on mismatched rows')
            trained = None
        elif w == 'train':
            p = c.int(max(3, k + 1), 7)
            x, y = gen.regression(c, c.int(p + 3, 20), p)
            c.ok(o.initialize(gen.mat(c, x), gen.mat(c, y)) is None, 'training failed')
            trained = x
        elif w == 'predict' and trained is not None:
            o.predict(gen.mat(c, trained))
        elif w == 'serialise':
            if trained is None:
                c.refused(lambda: o.serialise_state(io.BytesIO()), f'SIMPLS untrained after {log}')
                c.refused(lambda: o.get_serialised_state(), f'SIMPLS untrained after {log}')
                if c.chance(0.5):
                    refused_save(c, o, f'SIMPLS untrained after {log}')
            else:
                d = c.call('serialising', routes, c, o, 'SIMPLS')
                W = d.matrix()
                c.ok(d.end(), 'bytes after W')
                c.ok(W.shape == (trained.shape[1], k), f'W {W.shape}')
                c.ok(bool(np.all(W == arr(o.get_matrix('W')))), 'decoded W is not the live one')
                c.close(o.transform(gen.mat(c, trained)), trained @ W, 'scores by the decoded weights', 1e-9)
    c.sig('SIMPLS', log, trained if trained is not None else 0)


def refused_save(c, o, what):
    """A save that is refused neither touches the file it was to replace nor succeeds silently."""
    d = tempfile.mkdtemp(prefix='verif-c05-')
    try:
        f = os.path.join(d, 'old.bin')
        old = c.rng.bytes(c.int(1, 400))
        with open(f, 'wb') as h:
            h.write(old)
        c.refused(lambda: o.save_state(f), f'saving {what}')
        with open(f, 'rb') as h:
            c.ok(h.read() == old, f'refused save of {what} changed the existing file')
        c.ev('refused saves onto an existing file')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def scalars(c):
    k = c.int(0, 5)
    f = Serialisable.serialise_to_bytes
    big = Serialisable.serialise_big_int
    if k == 0:
        v = c.pick([0, 1, -1, 127, 128, 255, 256, -128, -129, 2 ** 31 - 1, -2 ** 31, c.int(-2 ** 31, 2 ** 31 - 1)])
        b = f(v)
        c.ok(len(b) == 4 and Decoder(b).i32() == v, f'int {v}: {b!r}')
    elif k == 1:
        v = c.pick([2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 40 + c.int(0, 99), -2 ** 70])
        c.refused(lambda: f(v), f'integer {v} that does not fit 32 bits')
    elif k == 2:
        v = c.pick([0.0, -0.0, 1.5, 5e-324, 1e308, float('inf'), float('-inf'), float('nan'), np.float64(1 / 3),
                    float(c.rng.normal())])
        b = f(v)
        c.ok(b == struct.pack('<d', float(v)), f'float {v}: {b!r}')
    elif k == 3:
        n = c.int(0, 30)
        v = ''.join(c.pick(['a', 'Z', ' ', '\u00e9', '\u6f22', '\U0001f600', '\n', '\0', '"']) for _ in range(n))
        d = Decoder(f(v))
        n = d.i32()
        c.ok(d.take(n).decode('utf-8') == v and d.end(), f'string {v!r}')
    elif k == 4:
        bits = c.int(0, 200)
        v = int.from_bytes(c.rng.bytes(26), 'little') >> (208 - bits)
        v = c.pick([v, -v, 2 ** bits, -2 ** bits, 2 ** bits - 1, 1 - 2 ** bits, -2 ** bits - 1])
        d = Decoder(big(v))
        n = d.i32()
        c.ok(int.from_bytes(d.take(n), 'little', signed=True) == v and d.end(), f'big integer {v}')
    else:
        v = c.pick([None, [1], b'x', (1, 2), {}, 1j])
        c.refused(lambda: f(v), f'unsupported {v!r}')
        return c.sig('refused', repr(v))
    c.sig('scalar', k, repr(v))


SCENARIOS = [('matrix', matrix, 1500, 30000), ('empty', empty, 6, 30), ('transformation', transformation, 3000, 50000),
             ('simpls', simpls, 1500, 25000), ('scalars', scalars, 3000, 50000)]
