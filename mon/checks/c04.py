"""C04: text written and read back, judged on the bytes and on the matrix read."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from wai.ma.core.matrix import Matrix, helper

from .. import gen, instr
from ..common import arr

RULE = ('round trips and hand-made files through real files and handles in a scratch directory; distinct: different '
        '(format, separator, header, decimals, contents)')
ASSUMPTIONS = ['separators contain no character of a number and no line break',
               'scratch files on the local file system; text mode with the platform newline']
SEPS = [',', ';', '\t', '|', ' ', ', ', '::', '/', '#', ' ; ', '_', '&&', '\u00a7', '~', ':', '!', '%',
        '||', '$$', '**', '?', '(', '[', '\\', '^', '|;', '{2}', '()']


def worker_init():
    instr.install(objects=False)


worker_report = instr.report


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-c04-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def values(c, n, p):
    k = c.int(0, 7)
    if k == 0:
        a = c.rng.normal(size=(n, p)) * 10.0 ** c.rng.integers(-300, 300, size=(n, p))
    elif k == 1:
        a = c.rng.integers(0, 2 ** 63, size=(n, p), dtype=np.int64).view(np.float64)
        a = np.where(np.isfinite(a), a, 0.1)
        a = a * np.sign(c.rng.normal(size=(n, p)))
    elif k == 2:
        pool = np.array([0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                         -1.7976931348623157e308, 0.1, 1 / 3, 1e16, 123456789012345680.0, 1e22, 1e23, -1e-7, 1e15 + 0.3,
                         9007199254740993.0, 1e-5, 1e-4, 99999.5, 0.5, 1.5, 2.5])
        a = pool[c.rng.integers(0, len(pool), size=(n, p))]
    else:
        a = gen.values(c, n, p)
    return a


def layout(c):
    return dict(sep=c.pick(SEPS), header=c.chance(0.5))


def bits(c, m, a, what):
    d = arr(m, what)
    c.ok(d.shape == a.shape, f'{what}: shape {d.shape} instead of {a.shape}')
    c.ok(d.dtype == np.float64 and d.tobytes() == np.ascontiguousarray(a).tobytes(),
         f'{what}: {d.tolist()!r:.300} instead of {a.tolist()!r:.300}')


def put(c, m, d, sep, header, dec, sci, how):
    """Writes by the chosen route; (text, route to read it back)"""
    args = (header, sep, dec) + ((sci,) if sci or c.chance(0.3) else ())
    if how == 'file':
        f = os.path.join(d, c.pick(['m.csv', 'no_ext', 'with space.txt', '\u00e9t\u00e9.csv']))
        if c.chance(0.4):
            with open(f, 'w') as h:  # a longer file lying there is replaced
                h.write('9,9,9\n' * 500)
        helper.write(m, f, *args)
        with open(f, newline='') as h:
            return h.read(), f
    if how == 'handle':
        f = os.path.join(d, 'h.txt')
        with open(f, 'w') as h:
            pre = c.pick(['', 'preamble\n'])
            h.write(pre)
            helper.write(m, h, *args)
            c.ok(not h.closed, 'write closed the caller\'s handle')
        with open(f, newline='') as h:
            t = h.read()
        c.ok(t.startswith(pre), 'text before the matrix was disturbed')
        return t[len(pre):], io.StringIO(t[len(pre):])
    if how == 'stringio':
        h = io.StringIO()
        helper.write(m, h, *args)
        return h.getvalue(), io.StringIO(h.getvalue())
    if how == 'lines':
        t = '\n'.join(helper.to_lines(m, *args)) + '\n'
        return t, io.StringIO(t)
    raise ValueError(how)


def get(c, src, sep, header):
    if isinstance(src, str):
        if c.chance(0.5):
            return helper.read(src, header, sep)
        with open(src) as h:
            return helper.read(h, header, sep)
    return helper.read(src, header, sep)


def exact(c):
    n, p = gen.shape(c, False)
    a = values(c, n, p)
    m = gen.mat(c, a)
    lay = layout(c)
    how = c.pick(['file', 'handle', 'stringio', 'lines'])
    sci = c.chance(0.3)
    c.ev('route:' + how)
    c.sig('exact', how, sorted(lay.items()), sci, a)
    with scratch() as d:
        text, src = put(c, m, d, lay['sep'], lay['header'], -1, sci, how)
        c.ok(text.count('\n') == n + lay['header'], 'number of lines')
        c.ok(all(ln.count(lay['sep']) == p - 1 for ln in text.split('\n')[lay['header']:-1]) or lay['sep'] == ' ',
             'number of cells')
        r = get(c, src, lay['sep'], lay['header'])
    bits(c, r, a, f'read back ({how}, {lay}, scientific={sci})')
    bits(c, m, a, 'the matrix written')
    c.sample({'how': how, **lay, 'scientific': sci, 'text': text[:120]})


def rounded(c):
    n, p = gen.shape(c, False)
    a = values(c, n, p)
    m = gen.mat(c, a)
    lay = layout(c)
    how = c.pick(['file', 'handle', 'stringio', 'lines'])
    sci = c.chance(0.5)
    dec = c.int(0, 17) if c.chance(0.8) else c.int(18, 40)
    c.ev('scientific' if sci else 'fixed')
    c.sig('rounded', how, sorted(lay.items()), sci, dec, a)
    with scratch() as d:
        text, src = put(c, m, d, lay['sep'], lay['header'], dec, sci, how)
        r = get(c, src, lay['sep'], lay['header'])
    d = c.shape(r, n, p, 'read back')
    err = np.abs(d - a)
    if sci:
        with np.errstate(all='ignore'):
            e = np.where(a == 0, 0.0, np.floor(np.log10(np.abs(np.where(a == 0, 1.0, a)))))
        # np.log10 may be off by one at powers of ten and for subnormals
        bound = 0.5000001 * 10.0 ** (-dec) * np.maximum(10.0 ** np.minimum(e + (np.abs(a) < 1e-290), 308), 0)
        bound = bound + 4e-16 * np.abs(a) + 5e-324
        big = np.abs(a) > 1e307  # rounding up may leave the range
    else:
        bound = 0.5000001 * 10.0 ** (-dec) + 4e-16 * np.abs(a)
        big = np.zeros_like(a, bool)
    bad = ~(err <= bound) & ~big
    i = tuple(np.argwhere(bad)[0]) if bad.any() else None
    c.ok(not bad.any(), f'{"scientific" if sci else "fixed"} {dec} decimals: cell {i} '
         f'{a[i] if i else None!r} read back as {d[i] if i else None!r}')
    bits(c, m, a, 'the matrix written')


def two(c):
    """Two matrices through one handle."""
    lay = layout(c)
    a, b = values(c, *gen.shape(c, False)), values(c, *gen.shape(c, False))
    c.sig('two', a, b, sorted(lay.items()))
    h = io.StringIO()
    helper.write(gen.mat(c, a), h, lay['header'], lay['sep'], -1)
    mid = h.tell()
    helper.write(gen.mat(c, b), h, lay['header'], lay['sep'], -1)
    h.seek(mid)
    bits(c, helper.read(h, lay['header'], lay['sep']), b, 'second matrix on the handle')
    bits(c, helper.read(io.StringIO(h.getvalue()[:mid]), lay['header'], lay['sep']), a, 'first matrix on the handle')


def dirty(c):
    """Short rows, cells that are not numbers, missing last newline, CRLF on a handle, blanks around numbers."""
    n, p = c.int(1, 7), c.int(1, 6)
    sep = c.pick([',', ';', '\t', '\t', '|', '::'])
    header = c.chance(0.5)
    a = values(c, n, p)
    want = a.copy()
    rows, bad = [], 0
    for i in range(n):
        k = p if i == 0 or c.chance(0.6) else c.int(1, p)
        cells = []
        for j in range(k):
            if c.chance(0.12):
                cells.append(c.pick(['abc', '1.2.3', '--1', '1,5' if sep != ',' else '1;5', 'x1', '?', '0x10', '1e', 'e5', '', '', ' ']))
                want[i, j] = 0.0
                bad += 1
            else:
                t = repr(float(a[i, j]))
                cells.append(c.pick([t, t, ' ' + t + ' ', ('+' + t) if not t.startswith('-') else t]))
        want[i, k:] = 0.0
        rows.append(sep.join(cells))
    end = c.pick(['\n', '\r\n'])
    text = end.join(([sep.join(f'name {j}' for j in range(p))] if header else []) + rows) + (end if c.chance(0.6) or rows[-1] == '' else '')
    c.sig('dirty', text)
    out = io.StringIO()
    with scratch() as d, contextlib.redirect_stderr(out), contextlib.redirect_stdout(out):
        if c.chance(0.5):
            f = os.path.join(d, 'x.csv')
            with open(f, 'w', newline='') as h:
                h.write(text)
            r = get(c, f, sep, header)
        else:
            r = helper.read(io.StringIO(text), header, sep)
    c.same(r, want, f'read of {text!r:.200}')
    if bad:
        c.ev('unparsable cells', bad)
        c.ok(len(out.getvalue()) > 0, 'a cell that is not a number went unreported')
    else:
        c.ok(out.getvalue() == '', f'a clean file produced a report: {out.getvalue()[:200]}')


def empty(c):
    header = c.chance(0.7)
    text = c.pick(['', 'a,b,c\n', 'a,b,c']) if header else ''
    c.sig('empty', header, text)
    with scratch() as d:
        f = os.path.join(d, 'e.csv')
        with open(f, 'w') as h:
            h.write(text)
        c.refused(lambda: helper.read(f, header, ','), f'file without data rows {text!r} header={header}')
        c.refused(lambda: helper.read(io.StringIO(text), header, ','), 'handle without data rows')
        with open(f) as h:
            c.refused(lambda: helper.read(h, header, ','), 'open file without data rows')
        c.refused(lambda: helper.read(os.path.join(d, 'missing.csv'), header, ','), 'missing file')


def strings(c):
    """to_string and to_lines tell the same text as write."""
    a, m = gen.matrix(c, big=False)
    lay = layout(c)
    dec = c.pick([-1, 0, 2, 6, 9])
    c.sig('strings', a, dec, sorted(lay.items()))
    h = io.StringIO()
    helper.write(m, h, lay['header'], lay['sep'], dec)
    lines = helper.to_lines(m, lay['header'], lay['sep'], dec)
    c.ok([x + '\n' for x in lines] == h.getvalue().splitlines(True), 'to_lines and write differ')
    c.ok('\n'.join(lines) == helper.to_string(m, lay['header'], lay['sep'], dec), 'to_string and to_lines differ')
    t = helper.to_string(m)
    c.ok(t == helper.to_string(m, True, '\t', 6), 'to_string: header, tabs and six decimals unless told otherwise')
    r = helper.read(io.StringIO(t), True, '\t')
    c.ok(bool(np.all(np.abs(arr(r) - a) <= 0.5000001e-6 + 4e-16 * np.abs(a))), 'to_string defaults')


SCENARIOS = [('exact', exact, 3000, 60000), ('rounded', rounded, 2500, 60000), ('two', two, 300, 6000),
             ('dirty', dirty, 2000, 40000), ('empty', empty, 60, 600), ('strings', strings, 600, 8000)]
