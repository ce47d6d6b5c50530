#!/usr/bin/env python3
"""Mutation testing of the checks (development only). Every small change of the
handlers that still passes the tests is run against the checks: first a share of
the cases, then all.
usage: mutate.py list | tests OUT | checks IN OUT [share]"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('MUT_REPO', '/repo')
FILES = ['NRWAL/handlers/equations.py', 'NRWAL/handlers/groups.py',
         'NRWAL/handlers/directories.py', 'NRWAL/handlers/config.py',
         'NRWAL/utilities/utilities.py']
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE],
       ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.BitOr: ast.BitAnd}
LOG = ('logger', 'msg')


def skip(node):
    """statements that only log or build messages"""
    t = ast.unparse(node)
    return t.startswith(('logger.', 'msg = ', 'msg += ', 'raise ', "'''",
                         '"""', 'import ', 'from '))


def mutants(src):
    """-> list of (description, new source)"""
    out = []
    base = ast.parse(src)
    nodes = list(ast.walk(base))
    skipped = set()
    for n in nodes:
        if isinstance(n, ast.stmt) and not isinstance(
                n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.While,
                    ast.Try)) and skip(n):
            skipped |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef) and n.name in (
                '__str__', '__repr__', 'head', 'tail'):
            skipped |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skipped |= {id(x) for x in ast.walk(n)}

    def emit(desc, node, repl):
        """replace node by repl in a copy"""
        idx = nodes.index(node)
        tree = copy.deepcopy(base)
        target = list(ast.walk(tree))[idx]
        done = False
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is target:
                    setattr(p, f, repl)
                    done = True
                elif isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is target:
                            v[i] = repl
                            done = True
        assert done
        ast.fix_missing_locations(tree)
        try:
            new = ast.unparse(tree)
            compile(new, 'x', 'exec')
        except Exception:
            return
        out.append(('L{} {}'.format(getattr(node, 'lineno', 0), desc), new))

    for n in nodes:
        if id(n) in skipped:
            continue
        t = ast.unparse(n)[:60].replace('\n', ' ') if hasattr(
            n, 'lineno') else ''
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [r()]
                emit('cmp {} -> {}'.format(t, r.__name__), n, m)
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            emit('bool ' + t, n, m)
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                if len(m.values) == 1:
                    m = m.values[0]
                emit('drop operand {} of {}'.format(i, t), n, m)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            m = copy.deepcopy(n)
            m.op = BIN[type(n.op)]()
            emit('bin ' + t, n, m)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit('drop not ' + t, n, copy.deepcopy(n.operand))
        if isinstance(n, (ast.If, ast.While)):
            for c in (True, False):
                m = copy.deepcopy(n)
                m.test = ast.Constant(c)
                if isinstance(n, ast.While) and c:
                    continue
                emit('cond {} -> {}'.format(ast.unparse(n.test)[:60], c), n, m)
        if isinstance(n, ast.comprehension):
            for i in range(len(n.ifs)):
                m = copy.deepcopy(n)
                del m.ifs[i]
                emit('drop filter ' + ast.unparse(n.ifs[i])[:60], n, m)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            emit('const {}'.format(n.value), n, ast.Constant(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            for d in (1, -1):
                emit('const {} {:+d}'.format(n.value, d), n,
                     ast.Constant(n.value + d))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) \
                and n.value and len(n.value) < 70:
            emit('str {!r} -> other'.format(n.value), n,
                 ast.Constant('\x01'))
            s = n.value
            for pat in ('(?<![\\w.])', '(?!\\w)', '\\s*', '(?!=)', '$', '+',
                        '(?<!:)', '(?!:)', '.'):
                if pat in s and len(s) > 5:
                    emit('regex {!r} without {}'.format(s, pat), n,
                         ast.Constant(s.replace(pat, '', 1)))
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) > 1 \
                and isinstance(n.ctx, ast.Load):
            for i in range(len(n.elts)):
                m = copy.deepcopy(n)
                del m.elts[i]
                emit('drop element {} of {}'.format(i, t), n, m)
        if isinstance(n, ast.Call):
            name = ast.unparse(n.func)
            if name in ('copy.deepcopy', 'sorted', 'str', 'float', 'list',
                        'set', 'any', 'bool', 'dict') and len(n.args) == 1:
                emit('unwrap {} in {}'.format(name, t), n,
                     copy.deepcopy(n.args[0]))
            if name == 'copy.deepcopy':
                m = copy.deepcopy(n)
                m.func.attr = 'copy'
                emit('shallow ' + t, n, m)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'flatten',
                    'astype', 'replace'):
                emit('drop .{} in {}'.format(n.func.attr, t), n,
                     copy.deepcopy(n.func.value))
            if len(n.args) == 2:
                m = copy.deepcopy(n)
                m.args = m.args[::-1]
                emit('swap args ' + t, n, m)
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[i]
                emit('drop keyword {} of {}'.format(n.keywords[i].arg, t), n,
                     m)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'partition', 'rpartition'):
                m = copy.deepcopy(n)
                m.func.attr = {'partition': 'rpartition', 'rpartition':
                               'partition'}[n.func.attr]
                emit('other ' + t, n, m)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert,
                          ast.Continue, ast.Break, ast.Delete)):
            emit('delete ' + t, n, ast.Pass())
        if isinstance(n, ast.Return) and n.value is not None:
            emit('return None instead of ' + t, n, ast.Return(
                ast.Constant(None)))
        if isinstance(n, ast.IfExp):
            emit('ifexp body ' + t, n, copy.deepcopy(n.body))
            emit('ifexp else ' + t, n, copy.deepcopy(n.orelse))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) \
                and isinstance(n.ctx, ast.Load):
            emit('no slice ' + t, n, copy.deepcopy(n.value))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            m = copy.deepcopy(n)
            m.type = ast.Name('ArithmeticError', ast.Load())
            emit('handler {}'.format(ast.unparse(n.type)), n, m)
    return out


def sh(cmd, cwd, env, timeout):
    e = dict(os.environ, **env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, shell=True, text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ''


def every():
    res, seen = [], set()
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        plain = ast.unparse(ast.parse(src))
        for d, new in mutants(src):
            if new == plain or (f, new) in seen:
                continue
            seen.add((f, new))
            res.append((f, d, new))
    return res


def clone(f, new):
    w = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    repo = os.path.join(w, 'repo')
    subprocess.run(['git', 'clone', '-q', REPO, repo], check=True)
    open(os.path.join(repo, f), 'w').write(new)
    return w, repo


def test_one(k):
    f, d, new = ALL[k]
    w, repo = clone(f, new)
    try:
        rc, out = sh(PY + ' -m pytest -q -x tests -p no:cacheprovider '
                     '--deselect tests/test_nrwal_library.py',
                     repo, dict(PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo,
                                OMP_NUM_THREADS='1',
                                PYTHONHASHSEED='0'), 120)
        return k, rc == 0 and '51 passed' in out
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check_one(k, share, props, jobs):
    f, d, new = ALL[k]
    w, repo = clone(f, new)
    hit = []
    try:
        for p in props:
            rc, out = sh('{} run.py {} --tier quick --jobs {}'.format(
                PY, p, jobs), V, dict(
                    NRWAL_REPO=repo, NRWAL_OUT=w, NRWAL_SHARE=str(share),
                    NRWAL_MAX_VIOL='1'), 1500)
            if rc != 0:
                hit.append(p)
                break
        return k, hit
    finally:
        shutil.rmtree(w, ignore_errors=True)


ALL = every()
if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'list':
        for i, (f, d, _) in enumerate(ALL):
            print(i, f.split('/')[-1], d)
    elif cmd == 'tests':
        ok = []
        with ThreadPoolExecutor(7) as ex:
            for k, good in ex.map(test_one, range(len(ALL))):
                if good:
                    ok.append([k, ALL[k][0], ALL[k][1]])
                    json.dump(ok, open(sys.argv[2], 'w'), indent=0)
    elif cmd == 'checks':
        todo = [x[0] for x in json.load(open(sys.argv[2]))]
        share = int(sys.argv[4]) if len(sys.argv) > 4 else 1
        props = ['C{:02d}'.format(i) for i in range(1, 30) if os.path.exists(
            os.path.join(V, 'mc', 'c{:02d}.py'.format(i)))]
        if len(sys.argv) > 5:
            props = sys.argv[5].split(',')
        jobs = 1 if share > 1 else 8
        left = []
        with ThreadPoolExecutor(8 if share > 1 else 1) as ex:
            for k, hit in ex.map(lambda k: check_one(k, share, props, jobs),
                                 todo):
                print(k, ALL[k][0].split('/')[-1], ALL[k][1],
                      hit or 'SURVIVED', flush=True)
                if not hit:
                    left.append([k, ALL[k][0], ALL[k][1]])
                    json.dump(left, open(sys.argv[3], 'w'), indent=0)
    elif cmd == 'show':
        import difflib
        for k in map(int, sys.argv[2:]):
            f, d, new = ALL[k]
            old = ast.unparse(ast.parse(open(os.path.join(REPO, f)).read()))
            print(k, f, d)
            print('\n'.join(x for x in difflib.unified_diff(
                old.split('\n'), new.split('\n'), lineterm='', n=2)))
