#!/usr/bin/env python3
"""Planted bugs: (re)writes seeded/<id>/ from the list below, after confirming
each in a scratch copy of /repo (applies, tests pass, demo 0 on the clean tree
and nonzero with the patch). usage: seeds.py [id ...] [--checks]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CFG, GRP, DIR, EQN, UTL = ('NRWAL/handlers/config.py', 'NRWAL/handlers/groups.py',
                           'NRWAL/handlers/directories.py', 'NRWAL/handlers/equations.py',
                           'NRWAL/utilities/utilities.py')
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks,
                     demo=demo)


exec(open(os.path.join(V, 'tools', 'seed_list.py')).read())

DEMO_SH = '''#!/bin/bash
# exit 0 where the property holds, nonzero where the planted bug shows
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
DEMO_HEAD = '''import json
import logging
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

logging.disable(logging.CRITICAL)
import NRWAL
from NRWAL import (Equation, EquationDirectory, EquationGroup, NrwalConfig)
assert os.path.realpath(NRWAL.__file__).startswith(os.path.realpath('.'))
tmp = tempfile.mkdtemp()


def lib(tree, root=None):
    """write a library {name: dict (file) or {'/': sub tree}}"""
    root = root or tempfile.mkdtemp(dir=tmp)
    for name, val in tree.items():
        p = os.path.join(root, name)
        if '.' not in name:
            os.mkdir(p)
            lib(val, p)
        else:
            with open(p, 'w') as f:
                json.dump(val, f)
    return root


def same(a, b, rtol=1e-6):
    assert np.shape(a) == np.shape(b), (a, b)
    assert np.allclose(a, b, rtol=rtol, atol=0), (a, b)


def main():
'''
DEMO_TAIL = '''

try:
    main()
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print('ok')
'''


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, **(env or {}))
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, shell=True, text=True,
                              stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        class R:
            returncode, stdout = 124, 'timeout'
        return R


def build(id):
    s = SEEDS[id]
    w = tempfile.mkdtemp(prefix='seed_' + id + '_', dir='/tmp')
    repo = os.path.join(w, 'repo')
    try:
        sh('git clone -q {} {}'.format(os.environ.get('SEED_BASE', '/repo'),
                                   repo), '/')
        demo = os.path.join(w, 'demo')
        os.mkdir(demo)
        body = '\n'.join('    ' + x if x.strip() else ''
                         for x in s['demo'].strip('\n').split('\n'))
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(DEMO_HEAD + body + DEMO_TAIL)
        with open(os.path.join(demo, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        r = sh('bash {}/demo.sh'.format(demo), repo)
        if r.returncode:
            return id, 'demo fails on the clean tree:\n' + r.stdout[-1500:]
        for fn, old, new in s['edits']:
            p = os.path.join(repo, fn)
            text = open(p).read()
            if text.count(old) != 1:
                return id, '{} matches of {!r}'.format(text.count(old), old)
            open(p, 'w').write(text.replace(old, new))
        patch = sh('git diff', repo).stdout
        r = sh('bash {}/demo.sh'.format(demo), repo)
        if r.returncode == 0:
            return id, 'demo passes with the patch'
        shown = r.stdout.strip().split('\n')[-1]
        r = sh(PY + ' -m pytest -q -x tests -p no:cacheprovider '
               '--timeout=300', repo, dict(PYTHONDONTWRITEBYTECODE='1',
                                           PYTHONPATH=repo,
                                           PYTHONHASHSEED='0'))
        if r.returncode or '58 passed' not in r.stdout:
            return id, 'tests fail with the patch:\n' + r.stdout[-1200:]
        out = os.path.join(V, 'seeded', id)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(demo, f), out)
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(patch)
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump(dict(property=s['prop'], needs=s['needs'],
                           what_it_breaks=s['breaks']), f, indent=1)
        return id, 'ok: ' + shown[:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def checks(id, props):
    """Run checks against the patched tree (copy), in order."""
    w = tempfile.mkdtemp(prefix='seedc_' + id + '_', dir='/tmp')
    repo = os.path.join(w, 'repo')
    res = {}
    try:
        sh('git clone -q {} {}'.format(os.environ.get('SEED_BASE', '/repo'),
                                   repo), '/')
        r = sh('git apply {}/seeded/{}/patch.diff'.format(V, id), repo)
        if r.returncode:
            return {'apply': r.stdout}
        for p in props:
            r = sh('{} run.py {} --tier quick'.format(PY, p), V,
                   dict(NRWAL_REPO=repo, NRWAL_OUT=w), timeout=900)
            res[p] = 'caught' if r.returncode == 1 and (
                'VIOLATION property=' + p) in r.stdout else (
                    'quiet' if r.returncode == 0 else 'rc{}'.format(
                        r.returncode))
        return res
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    ids = args or list(SEEDS)
    if '--checks' in sys.argv or '--matrix' in sys.argv:
        for i in ids:
            props = [SEEDS[i]['prop']]
            if '--matrix' in sys.argv:
                props = ['C{:02d}'.format(n) for n in range(1, 26)]
            res = checks(i, props)
            own = res.get(SEEDS[i]['prop'])
            rp = os.path.join(V, 'tools', 'seed_results.json')
            old = json.load(open(rp)) if os.path.exists(rp) else {}
            old.setdefault(i, {}).update(res)
            with open(rp, 'w') as f:
                json.dump(old, f, indent=0, sort_keys=True)
            print(i, SEEDS[i]['prop'], own, {k: v for k, v in res.items()
                                             if v != 'quiet'}, flush=True)
    else:
        with ThreadPoolExecutor(6) as ex:
            for i, msg in ex.map(build, ids):
                print(i, msg, flush=True)
