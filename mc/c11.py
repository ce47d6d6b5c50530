"""Every acyclic dependency graph on up to 4 config entries x kind of reference
per entry (arithmetic, alias, numpy call, variable of a library equation, mixed,
member of a group or folder named in the config) x order of the entries, plus
long chains in both directions: every entry must have the value obtained by
evaluating its references first, whatever the order."""
import itertools
import os
from mc.common import *

NAMES = ['a', 'ab', 'a_b', 'b']      # contained in each other
KINDS = ['math', 'np', 'lib', 'mix', 'paren', 'dlib']
SRC = ['x', 'const', 'clib', 'calc']
X = 1.75
BOUNDS = {
    'quick': 'graphs on 1-3 entries: all x 6 reference kinds per entry x 4 '
             'kinds of source x all orders; 4 entries: all 64 graphs x all '
             'kinds x 1 order (rotating); prefix entries; chains of up to 150 entries '
             'in 2 directions and 5 kinds',
    'thorough': '4 entries: all 24 orders, chains up to 190'}
CASE_LIMIT = 60


def cases(tier):
    for n in (1, 2, 3):
        pairs = [(i, j) for j in range(n) for i in range(j)]
        for bits in itertools.product((0, 1), repeat=len(pairs)):
            edges = [p for p, b in zip(pairs, bits) if b]
            used = [[i for i, j in edges if j == k] for k in range(n)]
            opts = [KINDS + (['alias'] if len(d) == 1 else []) if d else SRC
                    for d in used]
            for kinds in itertools.product(*opts):
                for perm in itertools.permutations(range(n)):
                    yield {'deps': used, 'k': list(kinds), 'p': list(perm)}
    n = 4
    pairs = [(i, j) for j in range(n) for i in range(j)]
    c = 0
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        edges = [p for p, b in zip(pairs, bits) if b]
        used = [[i for i, j in edges if j == k] for k in range(n)]
        opts = [KINDS + (['alias'] if len(d) == 1 else []) if d else SRC[:2]
                for d in used]
        perms = list(itertools.permutations(range(n)))
        for kinds in itertools.product(*opts):
            c += 1
            if tier == 'thorough':
                ps = perms
            else:
                ps = [perms[-1] if c % 2 else perms[(7 * c) % 24]]
            for perm in ps:
                yield {'deps': used, 'k': list(kinds), 'p': list(perm)}
    # entries that are a group, a folder or an alias of one
    for defs in (('g',), ('d',), ('g', 'd'), ('g', 'gg'), ('d', 'dg'),
                 ('g', 'd', 'gg', 'dg')):
        for perm in itertools.permutations(range(len(defs) + 3)):
            if len(defs) < 4 or tier == 'thorough' or perm[0] in (5, 6) or \
                    sum(perm[i] > perm[i + 1] for i in range(6)) > 4:
                yield {'pre': list(defs), 'p': list(perm)}
    lens = (2, 7, 30, 99, 101, 104, 150) if tier != 'thorough' else \
        (2, 7, 30, 99, 100, 101, 102, 103, 104, 120, 150, 190)
    for n in lens:
        for kind in ('math', 'alias', 'np', 'lib', 'mix'):
            for order in ('fwd', 'rev', 'odd'):
                yield {'chain': n, 'kind': kind, 'order': order}


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    g = {}
    for r in range(0, 4):
        for s in itertools.combinations(range(4), r):
            body = ' + '.join('{} * {}'.format(3 + i, NAMES[i]) for i in s)
            g['v' + ''.join(map(str, s))] = (body or '7.5') + ' - x'
    g['const'] = 6.25
    chain = {'e%d' % i: 'c%d * 1.01 + 1' % (i - 1) for i in range(1, 200)}
    p = {'p': 'q1 * 2 + x', 'q': 'x / w', 's': {'t': 'q1 - 3'}}
    write_tree(d, {'g.json': ('json', g), 'chain.json': ('json', chain),
                   'grp.json': ('json', p),
                   # defaults for the entries: the entries win
                   'dflt': {'g.json': ('json', g), 'variables.json': (
                       'json', {m: 99.5 for m in NAMES})},
                   'sub': {'grp.json': ('json', {k: v for k, v in p.items()}),
                           'variables.json': ('json', {'w': 4.0})},
                   'variables.json': ('json', {'w': 8.0})})
    ctx.cache['lib'] = d


def entry(i, deps, kind):
    """-> (text, function of the values of the entries)"""
    names = [NAMES[j] for j in deps]
    if not deps:
        return {'x': ('x * {}'.format(i + 2), lambda e: X * (i + 2)),
                'const': (i + 2.5, lambda e: i + 2.5),
                'clib': ('g::const', lambda e: 6.25),
                'calc': ('2 * {} + 1'.format(i), lambda e: 2 * i + 1.0)}[kind]
    if kind == 'alias':
        return names[0], lambda e: e[names[0]]
    lin = ' - '.join('{} * {}'.format(m, k + 2) for k, m in enumerate(names))

    def flin(e):
        out = None
        for k, m in enumerate(names):
            t = e[m] * (k + 2)
            out = t if out is None else out - t
        return out

    def flib(e):
        return sum((3 + j) * e[NAMES[j]] for j in deps) - X
    lib = 'g::v' + ''.join(map(str, deps))
    if kind == 'math':
        return lin + ' - 1', lambda e: flin(e) - 1
    if kind == 'paren':
        return '2 * ({})'.format(lin), lambda e: 2 * flin(e)
    if kind == 'np':
        return 'np.minimum({}, 1e6)'.format(lin), lambda e: min(flin(e), 1e6)
    if kind == 'lib':
        return lib, flib
    if kind == 'dlib':
        return 'dflt::' + lib, flib
    return '{} / 2 + np.abs({})'.format(lib, names[-1]), \
        lambda e: flib(e) / 2 + abs(e[names[-1]])


def run(case, ctx):
    if 'chain' in case:
        return run_chain(case, ctx)
    if 'pre' in case:
        return run_pre(case, ctx)
    n = len(case['deps'])
    items, want = [], {}
    for i in range(n):
        text, fun = entry(i, case['deps'][i], case['k'][i])
        items.append((NAMES[i], text))
        want[NAMES[i]] = fun(want)
    ctx.state([case['deps'], case['k']])
    check(case, ctx, [items[i] for i in case['p']], want)


def check(case, ctx, items, want):
    cfg = dict(items, equation_directory=ctx.cache['lib'])
    st, c = ctx.call(NrwalConfig, cfg)
    if st == 'err':
        fail('{}: config {} refused: {!r}'.format(case, items, c))
    st, out = ctx.call(c.evaluate, {'x': X})
    if st == 'err':
        fail('{}: config {} failed: {!r}'.format(case, items, out))
    for k, v in want.items():
        got = config_value(c, out, k)
        if not scalar_close(got, v, 1e-6):
            fail('{}: config {}: {} = {!r}, expected {!r}'.format(
                case, items, k, got, v))
    ctx.outcome('equal')


def run_pre(case, ctx):
    defs = case['pre']
    items = [('q1', 'x + 1')]
    want = {'q1': X + 1}
    text = {'g': ('G', 'grp'), 'd': ('D', 'sub'), 'gg': ('GG', 'G'),
            'dg': ('DG', 'sub::grp')}
    for k in defs:
        items.append(text[k])
    last = defs[-1]
    pre, w = {'g': ('G::', 8.0), 'd': ('D::grp::', 4.0), 'gg': ('GG::', 8.0),
              'dg': ('DG::', 4.0)}[last]
    # the variable w has one value per expression (C03), so that q is only
    # combined with equations of its own folder or without w
    first = {'g': ('G::', 8.0), 'd': ('D::grp::', 4.0)}[defs[0]]
    first = first if first[1] == w else (pre, w)
    items.append(('y', pre + 'p'))
    want['y'] = (X + 1) * 2 + X
    items.append(('z', '({}q + y) * {}s::t'.format(first[0], pre)))
    want['z'] = (X / first[1] + want['y']) * (X + 1 - 3)
    ctx.state(case)
    check(case, ctx, [items[i] for i in case['p']], want)


def run_chain(case, ctx):
    n, kind = case['chain'], case['kind']
    items, want = [('c0', 'x * 2')], {'c0': X * 2}
    for i in range(1, n):
        k = kind if kind != 'mix' else ('math', 'alias', 'np', 'lib')[i % 4]
        p, v = 'c%d' % (i - 1), want['c%d' % (i - 1)]
        text, val = {'math': (p + ' + 1', v + 1), 'alias': (p, v),
                     'np': ('np.maximum({}, 1)'.format(p), max(v, 1)),
                     'lib': ('chain::e%d' % i, v * 1.01 + 1)}[k]
        items.append(('c%d' % i, text))
        want['c%d' % i] = val
    ctx.state(case)
    if case['order'] == 'rev':
        items = items[::-1]
    elif case['order'] == 'odd':
        items = items[1::2] + items[::2]
    check(case, ctx, items, want)
