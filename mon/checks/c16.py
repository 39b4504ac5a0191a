"""C16: differential monitor - an object with a history against a fresh one, with the process state watched."""
import copy
import random

import numpy as np

from .. import gen, instr, ref, zoo
from ..common import Skip, is_close

RULE = ('histories of trainings (other data, other dimensions, failing ones), queries, resets and assignments, followed '
        'by a training that must give the model a fresh object gives; trainings under different process-wide random '
        'states; pairs of models trained alternately; distinct: different (algorithm, parameters, history, data)')
ASSUMPTIONS = ['models are compared up to a relative difference of 1e-9 (the same code runs on the same data)',
               'plain initialize(x, y) of a domain-invariant model continues the domains set before and is not judged']
NAMES = zoo.PLS_NAMES + zoo.OTHER_NAMES


def worker_init():
    instr.install(isolation=True, rng=True, matrix=False)


worker_report = instr.report


def compare(c, a, b, what, tol=1e-9):
    c.ok(sorted(a) == sorted(b), f'{what}: exposes {sorted(b)} instead of {sorted(a)}')
    for k in a:
        c.close(b[k], a[k], f'{what}: {k}', tol, max(float(np.nanmax(np.abs(a[k]))), 1e-12) if a[k].size and
                np.isfinite(a[k]).any() else None)


def settings(s, o):
    """Hyper-parameters, those of the owned objects included."""
    out = {k: getattr(o, k) for k in s.params}
    for k in s.makers:
        sub = getattr(o, k)
        out[k] = type(sub).__name__
        for a in ('gamma', 'degree', 'coef_0', 'num_components', 'preprocessing_type', 'alpha', 'num_coefficients'):
            if hasattr(sub, a):
                out[f'{k}.{a}'] = getattr(sub, a)
    if s.pls:
        for a in ('num_components', 'preprocessing_type'):
            out[a] = getattr(o, a)
    return out


def plain_mats(data):
    return {k: gen.plain(v) for k, v in data.items()}


def images(m):
    return {k: instr.image(v) for k, v in m.items()}


def queries(c, s, data):
    x, y = s.predictors(data), s.response(data)
    r = [c.int(0, len(x) - 1) for _ in range(c.int(2, 4))]
    xq = x[r] + 0.1 * c.rng.normal(size=(len(r), x.shape[1]))
    return xq, (y[:3] if y is not None else None)


def observe(s, o, xq, yq):
    return s.observe(o, gen.plain(xq), gen.plain(yq) if yq is not None else None)


def fresh(c, s, data, xq, yq):
    o = s.build()
    msg = c.call(f'training of fresh {s}', s.train, o, plain_mats(data))
    c.ok(msg is None, f'{s}: training on good data reported {msg!r}')
    return o, observe(s, o, xq, yq)


class Domains:
    """What a domain-invariant model remembers from its first training (finding KF3)."""

    def __init__(self):
        self.centers = None

    def saw(self, s, d):
        if self.centers is None:
            rows = [d['xs'], d['xt']] + ([d['xu']] if s.mode == 'semisupervised' else [])
            allx = np.vstack(rows)
            allx = ref.Prep(ref.prep_code(s.params), allx)(allx)
            ns, nt = len(d['xs']), len(d['xt'])
            X = {'unsupervised': allx[:ns], 'supervised': allx, 'semisupervised': allx[:ns + nt]}[s.mode]
            self.centers = (X.mean(0), allx[:ns].mean(0), allx[ns:].mean(0))

    def model(self, s, d):
        return ref.Dipls(d['xs'], d['xt'], d['ys'], s.params['num_components'], s.params['lambda_'], s.mode, d['yt'],
                         d['xu'], self.centers, ref.prep_code(s.params))


def history(c):
    name = NAMES[c.index % 17]
    s = zoo.spec(c, name, prep=True)
    o = s.build()
    if c.chance(0.15):
        o.debug = True
    log, dom = [], Domains()
    last = None
    for _ in range(c.int(1, 4)):
        step = c.pick(['train', 'train', 'train', 'query', 'reset', 'bad', 'params', 'initialize'])
        if step == 'train' or (step == 'query' and last is None):
            last = s.data(c, p=dom.centers[0].shape[0] if dom.centers is not None else None)
            log.append(f'train {[v.shape for v in last.values()]}')
            msg = c.call(f'{s} after {log}', s.train, o, s.mats(c, last))
            c.ok(msg is None, f'{s} after {log}: reported {msg!r}')
            if name == 'DIPLS':
                dom.saw(s, last)
        elif step == 'query':
            if o.is_initialised():
                log.append('query')
                observe(s, o, *queries(c, s, last))
        elif step == 'reset':
            log.append('reset')
            o.reset()
        elif step == 'bad' and name not in ('PCA', 'FastICA', 'DIPLS'):
            d = s.data(c)
            k = list(d)[1]
            d[k] = d[k][:-1]
            log.append('failing training')
            try:
                s.train(o, s.mats(c, d))
            except Exception:
                pass
            last = None
        elif step == 'params':
            other = zoo.spec(c, name, prep=True, q=s.q)
            log.append('other parameters ' + repr(other))
            for k, v in other.params.items():
                setattr(o, k, v)
            for k, f in other.makers.items():
                setattr(o, k, f())
            if c.chance(0.7) and name != 'DIPLS':
                d = other.data(c)
                log.append('train')
                try:
                    other.train(o, other.mats(c, d))
                except Exception:
                    pass
            for k, v in s.params.items():
                setattr(o, k, v)
            for k in other.params:
                if k not in s.params:  # back to what it was
                    setattr(o, k, getattr(s.build(), k))
            for k, f in s.makers.items():
                setattr(o, k, f())
            last = None
        elif step == 'initialize':
            log.append('initialize()')
            o.initialize()
            dom = Domains()
            for k, v in s.params.items():
                setattr(o, k, v)
            for k, f in s.makers.items():
                setattr(o, k, f())
            last = None
    # the training that counts
    same_width = dom.centers is not None and c.chance(0.7)
    data = s.data(c, p=dom.centers[0].shape[0] if same_width else None)
    if last is not None and c.chance(0.25):
        data = last
        log.append('the same data again')
    if last is not None and c.chance(0.2) and name != 'DIPLS':  # the same numbers of rows and columns, other values
        x = s.predictors(last)
        data = s.data(c, n=len(x) - (20 if name == 'FastICA' else 0), p=x.shape[1])
    xq, yq = queries(c, s, data)
    what = f'{s} retrained after {log}'
    m = plain_mats(data)
    img = images(m)
    before = settings(s, o)
    try:
        msg = s.train(o, m)
    except Exception as e:
        if dom.centers is not None and dom.centers[0].shape[0] != s.predictors(data).shape[1]:
            c.ok(not o.is_initialised(), f'{what}: trained after raising')
            c.known('KF3', f'{what}: {e}')
            return
        c.fail(f'{what}: raised {type(e).__name__}: {e}')
    c.ok(msg is None, f'{what}: reported {msg!r}')
    c.ok(images(m) == img, f'{what}: changed the training data')
    got = observe(s, o, xq, yq)
    again = observe(s, o, xq, yq)
    for k in got:
        c.ok(np.array_equal(got[k], again[k], equal_nan=True), f'{what}: {k} differs when asked again')
    after = settings(s, o)
    c.ok(before == after == {**after, **s.params}, f'{what}: hyper-parameters {before} became {after}')
    c.sig(name, repr(s), tuple(log), data[list(data)[0]])
    c.ev('retrained:' + name)
    c.sample({'algorithm': repr(s), 'history': log})
    _, exp = fresh(c, s, data, xq, yq)
    if name == 'DIPLS' and dom.centers is not None:
        if not all(is_close(got[k], exp[k], 1e-9) for k in exp):
            stale = dom.model(s, data)
            c.close(got['answer:predict'], stale.predict(xq), f'{what}: predictions', 1e-6)
            c.close(got['answer:transform'], stale.transform(xq), f'{what}: scores', 1e-6)
            for k, v in dict(T=stale.T, Wdi=stale.W, P=stale.P, bdi=stale.b).items():
                c.close(got[k], v, f'{what}: {k}', 1e-6)
            c.known('KF3', what)
            return
    compare(c, exp, got, what)


def process_state(c):
    """The process-wide random states are neither used nor changed."""
    name = NAMES[c.index % 17]
    s = zoo.spec(c, name, prep=True)
    data = s.data(c)
    xq, yq = queries(c, s, data)
    outs = []
    for rep in range(2):
        seed = c.int(0, 2 ** 31 - 1)
        np.random.seed(seed)
        random.seed(seed)
        if rep and c.chance(0.5):
            np.random.rand(c.int(1, 700))
            random.random()
        n0, p0 = np.random.get_state(), random.getstate()
        o, obs = fresh(c, s, data, xq, yq)
        if rep and c.chance(0.4):
            o.reset()
            if name != 'DIPLS':
                s.train(o, plain_mats(data))
                obs = observe(s, o, xq, yq)
        n1, p1 = np.random.get_state(), random.getstate()
        c.ok(n0[2] == n1[2] and np.array_equal(n0[1], n1[1]) and n0[3:] == n1[3:],
             f'{s}: training or use disturbed numpy.random')
        c.ok(p0 == p1, f'{s}: training or use disturbed random')
        outs.append(obs)
        c.ev('random state')
    compare(c, outs[0], outs[1], f'{s} under another process-wide random state')
    c.sig('rng', name, repr(s), data[list(data)[0]])


def pairs(c):
    """Two models of the same kind trained and used alternately do not see each other."""
    name = NAMES[c.index % 17]
    sa = zoo.spec(c, name, prep=True)
    sb = zoo.spec(c, name, prep=True) if c.chance(0.7) else sa
    da, db = sa.data(c), sb.data(c)
    qa, qb = queries(c, sa, da), queries(c, sb, db)
    a, ea = fresh(c, sa, da, *qa)
    order = []
    b = sb.build()
    what = f'{sa} next to {sb}'
    for _ in range(c.int(1, 3)):
        step = c.pick(['train b', 'params b', 'reset b', 'query b', 'new', 'initialize b'])
        order.append(step)
        if step == 'train b':
            if name == 'DIPLS':
                b = sb.build()
            c.call(f'{sb}', sb.train, b, plain_mats(db))
        elif step == 'params b':
            for k, v in sb.params.items():
                setattr(b, k, v)
        elif step == 'reset b':
            b.reset()
        elif step == 'query b':
            if b.is_initialised():
                observe(sb, b, *qb)
        elif step == 'initialize b':
            b.initialize()
            b = sb.build()
        else:
            zoo.CLASSES[name]()
        got = observe(sa, a, *qa)
        for k in ea:
            c.ok(np.array_equal(ea[k], got[k], equal_nan=True), f'{what}: {k} of the first changed by {order}')
    if name == 'DIPLS':
        b = sb.build()
    c.call(f'{sb}', sb.train, b, plain_mats(db))
    _, eb = fresh(c, sb, db, *qb)
    compare(c, eb, observe(sb, b, *qb), f'{sb} trained next to {sa}')
    # in-place changes of the caller's matrices and deep copies of the model
    m = plain_mats(da)
    d = sa.build()
    sa.train(d, m)
    for v in m.values():
        zoo.scramble(c, v)
    compare(c, ea, observe(sa, d, *qa), f'{sa} after the caller changed the training matrices')
    xq = gen.plain(qa[0])
    first = sa.query(d, xq, gen.plain(qa[1]) if qa[1] is not None else None)
    keep = {k: v.data.copy() for k, v in first.items()}
    for v in first.values():
        zoo.scramble(c, v)
    zoo.scramble(c, xq)
    for k, v in sa.query(d, gen.plain(qa[0]), gen.plain(qa[1]) if qa[1] is not None else None).items():
        c.ok(np.array_equal(v.data, keep[k], equal_nan=True), f'{sa}: {k} differs after the caller changed an answer')
    c.sig('pair', repr(sa), repr(sb), tuple(order), da[list(da)[0]])
    c.ev('pair:' + name)


def variants(c):
    """The debug flag, text output and settings given twice or in another order have no influence."""
    name = NAMES[c.index % 17]
    s = zoo.spec(c, name, prep=True)
    data = s.data(c)
    xq, yq = queries(c, s, data)
    _, exp = fresh(c, s, data, xq, yq)
    o = zoo.CLASSES[name]()
    items = [(k, lambda v=v: v) for k, v in s.params.items()] + list(s.makers.items())
    for i in c.perm(len(items)):
        k, f = items[i]
        setattr(o, k, f())
        if c.chance(0.3):
            setattr(o, k, f())
    o.debug = c.chance(0.5)
    str(o)
    msg = c.call(f'{s}', s.train, o, plain_mats(data))
    c.ok(msg is None, f'{s}: reported {msg!r}')
    str(o)
    compare(c, exp, observe(s, o, xq, yq), f'{s} configured in another order, debug={o.debug}')
    for v in s.exposed(o).values():  # looking at the model leaves it alone
        str(v)
        v.to_raw_copy_2D()
    compare(c, exp, observe(s, o, xq, yq), f'{s} after its matrices were looked at')
    # a deep copy answers alike and is independent
    if c.chance(0.4):
        d = copy.deepcopy(o)
        compare(c, exp, observe(s, d, xq, yq), f'deep copy of {s}')
        d.reset()
        compare(c, exp, observe(s, o, xq, yq), f'{s} after its copy was reset')
    c.sig('variant', repr(s), data[list(data)[0]])
    c.ev('variant:' + name)


def edited(c, s, data):
    """The data of the caller after some changes, in the same shapes."""
    out = {}
    for k, v in data.items():
        out[k] = gen.edited(c, v, 0.4 * v.std()) if c.chance(0.7) else v
    if s.name == 'FastICA':
        return data
    return out


def reuse(c):
    """The caller keeps its Matrix objects and changes their contents between the calls."""
    name = NAMES[c.index % 17]
    s = zoo.spec(c, name, prep=True)
    data = s.data(c)
    what = f'{s} with matrices changed in place'
    m = plain_mats(data)
    o = s.build()
    c.call(what, s.train, o, m)
    xq, yq = queries(c, s, data)
    qm, rm = gen.plain(xq), gen.plain(yq) if yq is not None else None
    own = s.pls and c.chance(0.3)  # the training matrix itself is the query
    log = []
    for _ in range(c.int(2, 4)):
        step = c.pick(['query', 'query', 'train'])
        if step == 'train' and name not in ('DIPLS', 'FastICA'):
            data = edited(c, s, data)
            for k, v in data.items():
                gen.rewrite(c, m[k], v)
            log.append('train')
            c.call(f'{what} {log}', s.train, o, m)
            _, exp = fresh(c, s, data, xq, yq)
            compare(c, exp, observe(s, o, xq, yq), f'{what}: trained again {log}', 1e-7)
        elif name not in ('PCA', 'FastICA'):
            log.append('query')
            xq = gen.edited(c, xq, 0.5)
            gen.rewrite(c, qm, xq)
            if yq is not None:
                yq = gen.edited(c, yq, 0.5)
                gen.rewrite(c, rm, yq)
            got = s.query(o, qm, rm)
            want = s.query(o, gen.plain(xq), gen.plain(yq) if yq is not None else None)
            for k in want:
                c.close(got[k], want[k].data, f'{what}: {k} {log}', 1e-9)
    if own and name != 'DIPLS':
        x = s.predictors(data)
        q = m['x'] if 'x' in m else m['x1']
        if 'x' in m:
            s.query(o, q, None)
            x = gen.edited(c, x, 0.5)
            gen.rewrite(c, q, x)
            got, want = s.query(o, q, None), s.query(o, gen.plain(x), None)
            for k in want:
                c.close(got[k], want[k].data, f'{what}: {k} of the training matrix after it was changed', 1e-9)
    c.sig('reuse', repr(s), tuple(log), xq)
    c.ev('reuse:' + name)


SCENARIOS = [('reuse', reuse, 850, 10200), ('history', history, 2040, 34000), ('process_state', process_state, 680, 6800), ('pairs', pairs, 850, 8500),
             ('variants', variants, 680, 6800)]
