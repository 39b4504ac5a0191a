"""C31: differential monitor - the same work in differently set up processes."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import common
from ..common import is_close

RULE = ('a battery of work (training and asking models, transformations, matrix operations, text, files, refusals) runs '
        'in a plain process and in one set up differently (interpreter flags, hash seed, locale, optimised byte code, '
        'import order, print options, streams, garbage collection, threads, order of the work); all outcomes are '
        'compared and process-wide settings watched; distinct: different (set-up, battery)')
ASSUMPTIONS = ['numbers agree up to a relative error of 1e-9 of the largest entry, errors up to the built-in class of the '
               'exception', 'warnings as errors and floating point errors raised by numpy are not promised to be survived']
PACKAGES = ['wai.ma', 'wai.ma.algorithm', 'wai.ma.algorithm.pls', 'wai.ma.algorithm.glsw', 'wai.ma.algorithm.ica',
            'wai.ma.algorithm.ica.approxfun', 'wai.ma.core', 'wai.ma.core.matrix', 'wai.ma.core.error', 'wai.ma.core.java',
            'wai.ma.filter', 'wai.ma.meta', 'wai.ma.transformation', 'wai.ma.transformation.kernel']
FLAGS = [[], ['-O'], ['-OO'], ['-X', 'dev'], ['-X', 'utf8'], ['-B'], ['-W', 'ignore'], ['-W', 'always'], ['-s'],
         ['-X', 'importtime']]
SETTINGS = ['print options', 'numpy errors', 'numpy warnings', 'all warnings', 'no warnings', 'random states', 'decimal',
            'locale', 'eager gc', 'no gc', 'no logging', 'full logging', 'no streams', 'fast switching', 'busy thread',
            'deep stack', 'unseeded', 'trace', 'umask', 'backwards', 'twice', 'in a thread']
ENV = [('PYTHONHASHSEED', '0'), ('PYTHONHASHSEED', '1'), ('PYTHONHASHSEED', '4242'), ('LC_ALL', 'C'), ('LC_ALL', 'POSIX'),
       ('LC_ALL', 'C.UTF-8'), ('TZ', 'Pacific/Auckland'), ('HOME', '/nonexistent'), ('COLUMNS', '20'), ('USER', None),
       ('PYTHONIOENCODING', 'ascii'), ('PYTHONUNBUFFERED', '1'), ('TMPDIR', '/nonexistent'), ('LANG', 'de_DE.UTF-8'),
       ('NO_COLOR', '1'), ('DEBUG', '1'), ('PYTHONOPTIMIZE', '1')]
CASES = 24
PLAIN = {}  # outcomes of the batteries in a plain process


def run(c, first, flags, env, settings, imports, cwd):
    scratch = tempfile.mkdtemp(prefix='c31')
    try:
        told = dict(src=os.path.abspath(common.SRC), verif=common.VERIF, scratch=scratch, settings=settings, imports=imports,
                    first=first, cases=CASES, seed=c.int(0, 0), tier=c.tier)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        for k, v in env:
            e.pop(k, None)
            if v is not None:
                e[k] = v
        where = os.path.join(scratch, 'w') if cwd == 'scratch' else cwd
        os.makedirs(where, exist_ok=True)
        p = subprocess.run([sys.executable, *flags, os.path.join(common.VERIF, 'mon', 'child.py'), json.dumps(told)],
                           cwd=where, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           timeout=65)
        out = os.path.join(scratch, 'out.pickle')
        if not os.path.exists(out):
            return None, p.stderr.decode(errors='replace')[-1500:]
        with open(out, 'rb') as f:
            r = pickle.load(f)
        if cwd == 'scratch':
            r['left'] = os.listdir(where)
        return r, None
    except subprocess.TimeoutExpired:
        return None, 'does not end'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def array_agrees(a, b):
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    fin = np.abs(b[np.isfinite(b)]) if b.dtype.kind in 'fc' else np.zeros(0)
    return is_close(a, b, 1e-9, max(float(fin.max(initial=0)), 1e-12))


def agrees(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'array':
        return array_agrees(a[1], b[1])
    if a[0] == 'arrays':
        return sorted(a[1]) == sorted(b[1]) and all(array_agrees(a[1][k], b[1][k]) for k in b[1])
    return a[1] == b[1]


def processes(c):
    first = (c.index % 8) * CASES
    if c.index >= 8 and c.tier == 'thorough':
        first = (c.index % 40) * CASES
    if first not in PLAIN:
        r, err = run(c, first, [], [], [], ['wai.ma'], 'scratch')
        c.ok(r is not None, f'a plain process: {err}')
        PLAIN[first] = r
        c.ok(not r['changed'], f'a plain process: importing or using the library changed {r["changed"]}')
        c.ok(not r['left'], f'a plain process: files {r["left"]} appeared in the working directory')
    flags = c.pick(FLAGS)
    env = [ENV[i] for i in c.perm(len(ENV))[:c.int(0, 3)]]
    settings = [SETTINGS[i] for i in c.perm(len(SETTINGS))[:c.int(1, 4)]]
    settings.append(SETTINGS[c.index % len(SETTINGS)])
    if c.index % 5 == 0:
        flags = c.pick([['-O'], ['-OO']])
    if 'numpy errors' in settings and 'numpy warnings' in settings:
        settings.remove('numpy warnings')
    imports = [PACKAGES[i] for i in c.perm(len(PACKAGES))][:c.int(1, len(PACKAGES))]
    imports.insert(0, PACKAGES[(c.index // 8) % len(PACKAGES)])
    cwd = c.pick(['scratch', '/', '/tmp'])
    what = f'python {" ".join(flags)} {env} {settings} imports {imports[:3]}... in {cwd}'
    r, err = run(c, first, flags, env, settings, imports, cwd)
    c.ok(r is not None, f'{what}: {err}')
    c.ok(not r['changed'], f'{what}: importing or using the library changed {r["changed"]}')
    if 'left' in r:
        c.ok(not r['left'], f'{what}: files {r["left"]} appeared in the working directory')
    plain = PLAIN[first]['out']
    c.ok(sorted(plain) == sorted(r['out']), f'{what}: other steps taken')
    for k in sorted(plain):
        a, b = r['out'][k], plain[k]
        c.ok(a[0] == b[0], f'{what}: step {k} is {a[0]!r} instead of {b[0]!r}')
        c.ok(agrees(a[1:], b[1:]), f'{what}: {b[0]} is {a[1:]!r:.400}, in a plain process {b[1:]!r:.400}')
        c.ev('outcome:' + b[1])
    for s in settings:
        c.ev('setting:' + s)
    c.ev('flags:' + ' '.join(flags))
    for k, v in env:
        c.ev(f'env:{k}={v}')
    c.ev('first import:' + imports[0])
    c.sig(tuple(flags), tuple(env), tuple(settings), tuple(imports), cwd, first)
    c.sample({'setup': what, 'outcomes compared': len(plain)})


SCENARIOS = [('processes', processes, 48, 700)]
