"""Every small folder tree over an alphabet of file and folder kinds is written
to a scratch folder and loaded; keys at every level, every existing path, all
paths one step off and the listing of all equations are compared with an
independent walk over the folder."""
import itertools
import json
import os
from mc.common import *

ENV = {'a': 1.37, 'b': 0.83}
BOUNDS = {'quick': 'all 2^13 contents of one folder; all pairs of contents of '
                   'two nested folders over 5 item kinds each x 4 roots; '
                   'chains to depth 7; names that are numbers, contain dots '
                   'or equal keys of other levels',
          'thorough': 'as quick with 8 item kinds per nested folder'}


def grp(i):
    return {'e1': 'a + %d' % i, 'n': i, 'sub': {
        's1': 'a * %d' % (i + 1), 'e1': 'b - %d' % i,
        'deep': {'d1': 'b / %d' % (i + 2)}}}


# name -> content builder (dict: folder, str: other file, tuple: data)
ITEMS = {
    'g.yaml': lambda i: ('yaml', grp(i)), 'h.yml': lambda i: ('yaml', grp(i)),
    'k.json': lambda i: ('json', grp(i)),
    'variables.yaml': lambda i: ('yaml', {'v': 1.5 + i, 'w': i}),
    '.hid.yaml': lambda i: ('yaml', grp(i)),
    '__x.json': lambda i: ('json', grp(i)),
    'note.txt': lambda i: 'e1: a', 'noext': lambda i: 'e1: a',
    '.git': lambda i: {'g.json': ('json', grp(i))},
    '__pycache__': lambda i: {'g.json': ('json', grp(i))},
    'empty': lambda i: {}, 'docs': lambda i: {'r.txt': 'x', 'e': {}},
    'lib': lambda i: {'g.json': ('json', grp(i + 50))},
    'x_1': lambda i: ('json', {'q': 1}), 'onlyvars': lambda i: {
        'variables.json': ('json', {'z': 2})},
    'a.b.json': lambda i: ('json', grp(i)),
    'Y.YAML': lambda i: 'e1: a',
}
ONE = ['g.yaml', 'h.yml', 'k.json', 'variables.yaml', '.hid.yaml', '__x.json',
       'note.txt', 'noext', '.git', '__pycache__', 'empty', 'docs', 'lib']
IN = ['k.json', 'variables.yaml', '__x.json', 'note.txt', 'empty', 'h.yml',
      '.git', 'docs']


def subset(names, bits, base):
    return {n: ITEMS[n](base + k) for k, (n, b) in
            enumerate(zip(names, bits)) if b}


def cases(tier):
    big = tier == 'thorough'
    for bits in itertools.product((0, 1), repeat=len(ONE)):
        yield {'one': list(bits)}
    m = 8 if big else 5
    for b1 in itertools.product((0, 1), repeat=m):
        for b2 in itertools.product((0, 1), repeat=m):
            for root in range(4 if not big else 2):
                yield {'d1': list(b1), 'd2': list(b2), 'root': root}
    for n in range(1, 8):
        for kind in ('k.json', 'variables.yaml', 'note.txt', 'g.yaml'):
            for full in (0, 1):
                yield {'chain': n, 'kind': kind, 'full': full}
    for k in range(len(SPECIAL)):
        yield {'special': k}


G0 = ('json', grp(0))
G1 = ('json', grp(7))
SPECIAL = [
    {'2015': {'g.json': G0}, '2019': {'2015.json': G1}},
    {'2015.json': G0, '2016': {'3.json': G1}},
    {'g': {'g.json': ('json', {'g': {'g': 'a - 1'}, 'h': 'b'})}},
    {'d': {'d': {'d': {'d.json': ('json', {'d': 'a * 3'})}}}, 'h.json': G1},
    {'e1': {'g.json': G0}, 'g.json': G1},
    {'sub': {'variables.yml': ('yaml', {'v': 1})}, 'variables.json':
     ('json', {'v': 2, 'w': 3})},
    {'a_b': {'c_d.json': G0}, 'a': {'b.json': G1}, 'b': {'a.json': G0}},
    {'.h': {'d': {'g.json': G0}}, '__d': {'g.json': G0}, 'd': {'g.json': G1},
     '_d': {'g.json': G0}, 'x__': {'g.json': G1}, 'x.': {'g.json': G0}},
    {'yaml': {'json.json': G0, 'yml.yaml': ('yaml', grp(3))}},
    {'g.json': ('json', {'only': {}}), 'h.json': ('json', {})},
    {'d': {'h.json': ('json', {})}, 'e': {'f': {'h.json': ('json', {})}}},
    {'x_10MW.json': ('json', {'c_3MW': 'a', 'c_6MW': 'b', 'c_2015': 'a*b'})},
    {'dotted.name': {'g.json': G0}, 'Z': {'z.json': G1}, 'z': {'Z.json': G0}},
    {'README.rst': 'x', 'm.yaml.bak': 'x', 'n.jsonx': 'x', 'yaml': {'a': 'x'},
     'q.json': G0},
    {'_variables.json': ('json', {'v': 'a'}), 'variables2.json':
     ('json', {'v': 'a'}), 'my_variables.yaml': ('yaml', {'v': 'b - a'}),
     'Variables.yml': ('yaml', {'w': 'a'})},
    {'v1.2.json': G0, 'a.b.c.yaml': ('yaml', grp(4)), 'd': {
        'x.y.yml': ('yaml', grp(5)), 'x.json': G1, 'e.f': {
            'g.h.json': G0}}},
    {'costs.v2.yaml': ('yaml', grp(4)), 'costs.json': G1,
     'cost': {'v2.json': G0}, 'lib.v1': {'lib.v1.json': G1}},
    {str(i): {'g.json': ('json', {'e%d' % j: 'a + %d' % j for j in range(12)})}
     for i in range(12)},
    {'t%d' % i: {'u%d' % j: {'g.json': ('json', {'e': 'a * %d.%d' % (i, j)})}
                 for j in range(3)} for i in range(4)},
]


def make(case):
    if 'one' in case:
        return subset(ONE, case['one'], 1)
    if 'd1' in case:
        m = len(case['d1'])
        inner = subset(IN[:m], case['d2'], 30)
        outer = subset(IN[:m], case['d1'], 10)
        outer['in'] = inner
        r = case['root']
        root = {'d': outer}
        if r & 1:
            root['k.json'] = ITEMS['k.json'](90)
        if r & 2:
            root['.d'] = inner
            root['e'] = inner
        return root
    if 'chain' in case:
        t = {case['kind']: ITEMS[case['kind']](5)}
        for i in range(case['chain']):
            t = {'c%d' % i: t}
            if case['full']:
                t['k.json'] = ITEMS['k.json'](i + 20)
        return t
    return SPECIAL[case['special']]


def model(tree):
    """expected contents by own rules: name -> ('grp'|'var'|'dir', content)"""
    out = {}
    for name, val in tree.items():
        if isinstance(val, dict):
            if not name.startswith(('.', '__')):
                sub = model(val)
                if sub:
                    out[name] = ('dir', sub)
        elif isinstance(val, tuple):
            stem, ext = name.rsplit('.', 1)
            if stem == 'variables':
                out[stem] = ('var', val[1])
            elif not name.startswith(('.', '__')):
                out[stem] = ('grp', val[1])
    return out


def leaves(node, path, out):
    """all existing paths below a model node -> kind and payload"""
    kind, val = node
    if kind == 'dir':
        out[path] = ('dir', sorted(val))
        for k, sub in val.items():
            leaves(sub, path + (k,), out)
    elif kind in ('grp', 'sub'):
        out[path] = ('grp', sorted(val))
        for k, sub in val.items():
            if isinstance(sub, dict):
                leaves(('sub', sub), path + (k,), out)
            else:
                out[path + (k,)] = ('eq', eval(str(sub), {}, dict(ENV)))
    else:
        out[path] = ('var', sorted(val))
        for k, sub in val.items():
            out[path + (k,)] = ('num', float(sub))


def kind_of(o):
    if isinstance(o, Equation):
        return 'eq'
    if isinstance(o, VariableGroup):
        return 'var'
    if isinstance(o, EquationGroup):
        return 'grp'
    if isinstance(o, EquationDirectory):
        return 'dir'
    return 'num'


def matches(o, want):
    kind, val = want
    if kind_of(o) != kind:
        return False
    if kind == 'eq':
        return scalar_close(o.eval(**{k: ENV[k] for k in o.variables}), val)
    if kind == 'num':
        return scalar_close(o, val)
    return sorted(o.keys()) == val


def files_of(tree, pre=()):
    for name, val in tree.items():
        if isinstance(val, dict):
            if not name.startswith(('.', '__')):
                yield from files_of(val, pre + (name,))
        elif isinstance(val, tuple):
            yield pre, name


def run(case, ctx):
    tree = make(case)
    root = ctx.fresh_dir()
    write_tree(root, tree)
    ctx.state(case)
    st, d = ctx.call(EquationDirectory, root)
    if st == 'err':
        fail('directory refused: {!r}'.format(d))
    mod = model(tree)
    if sorted(d.keys()) != sorted(mod):
        fail('keys {} expected {}'.format(sorted(d.keys()), sorted(mod)))
    paths = {}
    for k, node in mod.items():
        leaves(node, (k,), paths)
    exts = {}
    for pre, name in files_of(tree):
        stem = name.rsplit('.', 1)[0]
        exts[pre + (stem,)] = name
    for p, want in paths.items():
        variants = ['::'.join(p)]
        for f, name in exts.items():
            if p[:len(f)] == f:
                variants.append('::'.join(f[:-1] + (name,) + p[len(f):]))
        for key in variants:
            st, o = ctx.call(d.__getitem__, key)
            if st == 'err':
                fail('path {!r} failed: {!r}'.format(key, o))
            if not matches(o, want):
                fail('path {!r} gives {!r}, expected {}'.format(key, o, want))
        o = d.get(variants[0], 'fallback')
        if not matches(o, want):
            fail('get {!r} gives {!r}'.format(variants[0], o))
        o = d
        for part in p:
            o = o[part]
        if not matches(o, want):
            fail('step by step {!r} gives {!r}'.format(p, o))
    # containers as mappings
    for k, v in d.items():
        if not matches(v, paths[(k,)]) or k not in d:
            fail('items() / in: {}'.format(k))
    for p, (kind, val) in paths.items():
        if kind not in ('dir', 'grp', 'var'):
            continue
        o = d['::'.join(p)]
        its, vals = list(o.items()), list(o.values())
        if sorted(k for k, _ in its) != val or len(vals) != len(its):
            fail('items() of {!r}: {}'.format(p, [k for k, _ in its]))
        for (k, v), w in zip(its, vals):
            if (k not in o or not matches(v, paths[p + (k,)])
                    or not matches(w, paths[p + (k,)])):
                fail('items() / values() / in of {!r}: {}'.format(p, k))
        one = val[0] if val else 'a'
        for k in ('nope', one + 'x', '::'.join((p[-1], one)),
                  one + '::nope', 'nope::' + one):
            if k in o and k not in val:
                fail('{!r} in {!r}, which has {}'.format(k, p, val))
    # everything listed exactly once
    want = sorted(v for k, v in paths.values() if k == 'eq')
    got = sorted(e.eval(**{k: ENV[k] for k in e.variables})
                 for e in d.all_equations)
    if len(want) != len(got) or not all(scalar_close(x, y)
                                        for x, y in zip(got, want)):
        fail('all_equations: {} expected {}'.format(got, want))
    # paths that do not exist
    bad = set()
    full = list(paths)
    few = 'root' in case and case['root'] != 0
    for p in (full[::7] if few else full) + [()]:
        for extra in ('nope', 'a', '7', 'g.yaml', 'v', 'x_5MW', 'c_2017',
                      '__x', '.git', 'nope.json'):
            bad.add(p + (extra,))
        if len(p) > 1:
            bad.add(p[1:])
            bad.add((p[0].upper() + 'Q',) + p[1:])
            bad.add(p[:-1] + (p[-1] + 'x',))
            bad.add(p[:-2] + p[-1:])
    # an extension is allowed on any component, so compare without it
    exist = set(full)
    for p in sorted(bad):
        q = tuple(x.rsplit('.', 1)[0] if x.endswith(('.json', '.yaml', '.yml'))
                  else x for x in p)
        if p in exist or q in exist or (
                len(p) == 1 and Equation.is_num(q[0])):
            continue
        key = '::'.join(p)
        st, o = ctx.call(d.__getitem__, key)
        if st == 'ok':
            fail('missing path {!r} gives {!r}'.format(key, o))
        if not isinstance(o, KeyError):
            fail('missing path {!r} raises {!r}'.format(key, o))
        if key in d:
            fail('missing path {!r} in the directory'.format(key))
        st, o = ctx.call(d.get, key, 'fallback')
        if st != 'ok' or o != 'fallback':
            fail('get of missing path {!r}: {!r}'.format(key, o))
    ctx.outcome('%d equations' % min(len(want), 40))
