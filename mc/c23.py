"""(a) Every string of up to n tokens (names, numbers, operators, parentheses,
numpy calls), with and without blanks, as an equation, as an equation of a
group, as a retrieval key and as a config entry: it is refused or has the value
Python gives it; what Python refuses never has a value. (b) Every malformed
definition at every position and depth of a group, variables, library or config
given as an object, JSON or YAML file, and every malformed or missing file
through every loader: refused with an error, and an object built from the sound
rest works."""
import itertools
import os
from mc.common import *

X, Y = 3.0, -5.0
TOK = ['x', 'y', '2', '.5', '+', '-', '*', '/', '**', '(', ')', 'np.sqrt(',
       'np.maximum(x,']
SMALL = ['x', '2', '+', '-', '*', '(', ')']
BOUNDS = {'quick': 'all strings of <= 4 of {} tokens with and without blanks '
                   'and of 5 of {} tokens, 4 routes; {} malformed values x '
                   'positions x depths x containers; malformed and missing '
                   'files x loaders'.format(len(TOK), len(SMALL), 17),
          'thorough': 'strings of <= 5 of {} tokens, of 6 of {} tokens'
                      .format(len(TOK), len(SMALL))}
CASE_LIMIT = 60
BATCH = 200
MISS = object()
# malformed as the definition of an equation (json and yaml representable ones
# are also written to files)
BAD = {'none': None, 'list': ['x'], 'empty list': [], 'numbers': [1, 2],
       'text': '', 'blank': '  ', 'bytes': b'x', 'tuple': (1, 2),
       'complex': 1 + 2j, 'set': {1}, 'array': np.array([1.0, 2.0])}
KEYS = {'int key': 1, 'float key': 2.5, 'text key': '7', 'exp key': '1e3',
        'neg key': -1}
# malformed as the value of a variable
BADVAR = dict(BAD, formula='x + 1', name='x', number='one', deep={'k': 1},
              pair='1, 2')
FILES = {'e0.yaml': '', 'e1.json': '', 'l.yaml': '- a\n- b\n',
         'l.json': '["x"]', 's.yaml': 'just text', 'n.json': '5',
         'c.json': '{"a": "x",}', 'o.json': '{"a": "x"', 't.yaml': 'a: "x\n',
         'd.yaml': 'a: 2020-01-01\n', 'i.yaml': 'a: x\n b: y\n',
         'p.yaml': 'a: !!python/object/apply:os.getcwd []\n',
         'q.yaml': 'a: !!python/tuple [1, 2]\n',
         'r.yaml': 'a: !!python/name:os.getcwd\n',
         'pi.yaml': 'a: !!python/int 5\n', 'ps.yaml': 'a: !!python/str x\n',
         'pf.yaml': 'a: !!python/float 1.5\n',
         'pu.yaml': 'a: !!python/unicode x\n',
         'm.yaml': 'a: x\n---\nb: y\n', 'm2.yaml': 'a: x\n---\n',
         'm.json': '{"a": "x"}\n{"b": "y"}\n', 'j.json': '{"a": "x"} b',
         'y.json': 'a: x\n', 'dup.yaml': '!!set {a, b}\n',
         'nul.json': 'null', 'tab.yaml': 'a:\n\t- x\n'}
OTHER = {'a.txt': 'a: x\n', 'a.csv': 'a,x\n', 'a': 'a: x\n',
         'a.py': 'a = 1\n', 'a.JSO': '{"a": "x"}', 'ajson': '{"a": "x"}',
         'a.yam': 'a: x\n', 'A.YAML': 'a: x\n', 'b.JSON': '{"a": "x"}'}


def tokens(tier):
    deep = tier == 'thorough'
    for n in range(1, 6 if deep else 5):
        yield from itertools.product(TOK, repeat=n)
    yield from itertools.product(SMALL, repeat=6 if deep else 5)


def cases(tier):
    it = tokens(tier)
    while True:
        part = list(itertools.islice(it, BATCH))
        if not part:
            break
        yield {'t': 'text', 'b': [''.join(p) for p in part]
               + [' '.join(p) for p in part if len(p) > 1]}
    for where in ('group', 'vars', 'config'):
        bad = list(BADVAR if where == 'vars' else BAD) + list(KEYS)
        for b in bad:
            for depth in (0,) if where != 'group' else (0, 1, 2):
                for pos in (0, 1, 2):
                    for form in ('dict', 'json', 'yaml', 'dir0', 'dir1',
                                 'dir2', 'add', 'addpath'):
                        if where == 'config' and form[:3] in ('dir', 'add'):
                            continue
                        yield {'t': where, 'b': b, 'd': depth, 'p': pos,
                               'f': form}
    for f in FILES:
        for loader in LOADERS:
            yield {'t': 'file', 'b': f, 'l': loader}
    for f in OTHER:
        for loader in LOADERS:
            yield {'t': 'other', 'b': f, 'l': loader}
    for loader in LOADERS:
        yield {'t': 'missing', 'l': loader}


def python(t):
    try:
        v = eval(t, {'np': np}, {'x': X, 'y': Y})
    except Exception:
        return MISS
    return v


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    write_tree(d, {'g.json': ('json', {'x': 'v'})})
    ctx.cache['lib'] = d
    ctx.cache['key'] = EquationGroup({'x': 'v', 'y': 'w'})


def text(t, ctx):
    want = python(t)
    lib = ctx.cache['lib']

    def config():
        c = NrwalConfig({'equation_directory': lib, 'o': t})
        r = c.evaluate({'x': X, 'y': Y})
        return config_value(c, r, 'o')

    routes = {
        'equation': lambda: Equation(t).eval(x=X, y=Y),
        'group': lambda: EquationGroup({'a': t})['a'].eval(x=X, y=Y),
        'key': lambda: ctx.cache['key'][t].eval(v=X, w=Y),
        'config': config}
    for nm, f in routes.items():
        st, r = ctx.call(f)
        if st == 'err':
            ctx.outcome('refused')
            continue
        if want is MISS:
            fail('{!r} is malformed but has the value {!r} as {}'.format(
                t, r, nm))
        if isinstance(want, tuple) or np.size(want) != 1:
            continue        # () is an empty tuple in Python
        if not scalar_close(r, want):
            fail('{!r} has the value {!r} as {}, Python: {!r}'.format(
                t, r, nm, want))
        ctx.outcome('value')


def put(case):
    """dictionary with the malformed part"""
    where, b = case['t'], case['b']
    good = [('a', 2.0 if where == 'vars' else 'x + 1'), ('b', 3)]
    entry = (KEYS[b], 4) if b in KEYS else (
        'c', (BADVAR if where == 'vars' else BAD)[b])
    good.insert(case['p'], entry)
    d = dict(good)
    for i in range(case['d']):
        d = {'z': 'x', 's%d' % i: d, 'q': 5}
    return d, dict(g for g in good if g != entry)


def dump(path, form, d):
    """False if the value cannot be written to such a file"""
    try:
        write_tree(os.path.dirname(path), {os.path.basename(path):
                                           (form, d)})
        with open(path) as f:
            back = json.load(f) if form == 'json' else yaml.safe_load(f)
    except (TypeError, ValueError, yaml.YAMLError):
        return False
    return repr(back) == repr(d)


def definition(case, ctx):
    d, rest = put(case)
    st, r = built(case, ctx, d, rest)
    if st is None:
        return
    if st == 'ok':
        fail('{}: {!r} was accepted as {!r}'.format(case, d, r))
    ctx.outcome('refused')
    # the same without the malformed part
    d = dict(rest)
    for i in range(case['d']):
        d = {'z': 'x', 's%d' % i: d, 'q': 5}
    st, r = built(case, ctx, d, rest)
    if st != 'ok':
        fail('{}: {!r} was refused: {!r}'.format(case, d, r))
    ctx.outcome('accepted')


def built(case, ctx, d, rest):
    where, form = case['t'], case['f']
    cls = {'group': EquationGroup, 'vars': VariableGroup,
           'config': NrwalConfig}[where]
    base = ctx.fresh_dir()
    if where == 'config':
        d['equation_directory'] = ctx.cache['lib']
    if form == 'dict':
        st, r = ctx.call(cls, d)
    elif form in ('json', 'yaml'):
        p = os.path.join(base, 'f.' + form)
        if not dump(p, form, d):
            return None, None
        st, r = ctx.call(cls, p)
    elif form == 'add':
        st, r = ctx.call(lambda: cls(rest) + d)
    elif form == 'addpath':
        p = os.path.join(base, 'f.json')
        if not dump(p, 'json', d):
            return None, None
        st, r = ctx.call(lambda: cls(rest) + p)
    else:
        deep = int(form[3])
        folder = os.path.join(base, *['f%d' % i for i in range(deep)])
        os.makedirs(folder, exist_ok=True)
        name = 'variables' if where == 'vars' else 'm'
        kind = 'json' if case['p'] == 1 else 'yaml'
        if not dump(os.path.join(folder, name + '.' + kind), kind, d):
            return None, None
        write_tree(folder, {'h.json': ('json', {'e': 'x * a'})})
        st, r = ctx.call(EquationDirectory, base)
        st2, r2 = ctx.call(NrwalConfig, {'equation_directory': base, 'o': 'x'})
        if (st2 == 'ok') != (st == 'ok'):
            fail('{}: a config accepts the library: {!r}, {!r}'.format(
                case, r, r2))
    return st, r


LOADERS = {
    'group': lambda p, ctx: EquationGroup(p),
    'variables': lambda p, ctx: VariableGroup(p),
    'config': lambda p, ctx: NrwalConfig(p),
    'group add': lambda p, ctx: EquationGroup({'z': 1}) + p,
    'variables add': lambda p, ctx: VariableGroup({'z': 1}) + p,
    'pointer': lambda p, ctx: pointer(p, ctx),
    'dir': lambda p, ctx: EquationDirectory(os.path.dirname(p)),
    'dir2': lambda p, ctx: EquationDirectory(os.path.dirname(
        os.path.dirname(p))),
    'dir add': lambda p, ctx: EquationDirectory(ctx.cache['lib'])
    + os.path.dirname(p),
    'library': lambda p, ctx: NrwalConfig({
        'equation_directory': os.path.dirname(p), 'o': 'x'})}


def pointer(p, ctx):
    top = os.path.join(os.path.dirname(p), 'top_config.json')
    if os.path.isdir(os.path.dirname(p)):
        write_tree(os.path.dirname(p), {'top_config.json': ('json', {
            'equation_directory': ctx.cache['lib'],
            'o': './' + os.path.basename(p) + '::a'})})
    return NrwalConfig(top).evaluate({'x': 1.0})


def files(case, ctx):
    base = os.path.join(ctx.fresh_dir(), 'lib', 'f')
    os.makedirs(base)
    load = LOADERS[case['l']]
    folder = case['l'] in ('dir', 'dir2', 'dir add', 'library')
    if case['t'] == 'missing':
        for p in (os.path.join(base, 'none.yaml'),
                  os.path.join(base, 'none.json'),
                  os.path.join(base, 'none', 'f.yaml')):
            if folder and os.path.isdir(os.path.dirname(p)):
                continue
            if case['l'] == 'dir2':
                continue
            st, r = ctx.call(load, p, ctx)
            if st == 'ok':
                fail('{}: a missing path was loaded as {!r}'.format(case, r))
            if not isinstance(r, (FileNotFoundError, AssertionError)):
                fail('{}: a missing path gives {!r}'.format(case, r))
            ctx.outcome('missing')
        return
    content = dict(FILES, **OTHER)[case['b']]
    p = os.path.join(base, case['b'])
    with open(p, 'w') as f:
        f.write(content)
    st, r = ctx.call(load, p, ctx)
    if case['t'] == 'other' and folder:
        # not an equation file: not part of the library
        if st == 'err':
            fail('{}: {!r}'.format(case, r))
        if case['l'] in ('dir', 'dir2') and list(r.keys()) not in (
                [], ['f'] if case['l'] == 'dir2' else []):
            fail('{}: the library has {}'.format(case, list(r.keys())))
        ctx.outcome('ignored')
        return
    if st == 'ok':
        fail('{}: the file {!r} was loaded as {!r}'.format(case, content, r))
    ctx.outcome('refused')


def run(case, ctx):
    t = case['t']
    if t == 'text':
        for x in case['b']:
            ctx.state(x)
            text(x, ctx)
        return
    ctx.state({k: v for k, v in case.items()})
    if t in ('group', 'vars', 'config'):
        definition(case, ctx)
    else:
        files(case, ctx)
