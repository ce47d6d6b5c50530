"""Every directed graph (self loops included) on up to 3 entries x reference
style per entry, every functional graph on 4 entries (thorough: every graph on
4), rings up to 60 with tails, shared diamonds, and names that look like
references but are not: circular ones must be refused with RuntimeError on
loading, all others must load and evaluate to the right values."""
import itertools
import os
import sys
from mc.common import *

NAMESETS = [['a', 'ab', 'b', 'a_b'], ['x1', 'x', 'x_', 'X']]
STYLES = ['math', 'tight', 'np', 'paren', 'neg', 'pow', 'npmath']
V = 1.5
BOUNDS = {
    'quick': 'all graphs on 1-2 entries x all styles, on 3 entries (512) x 7 '
             'uniform styles and all mixes of 3 styles, all 625 functional '
             'graphs on 4 entries x 7 styles x 2 orders; rings up to 60; '
             'diamonds; rings of 2-4 through library variables',
    'thorough': 'all 65536 graphs on 4 entries, all style mixes on 3'}
CASE_LIMIT = 20


def cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        cells = [(i, j) for i in range(n) for j in range(n)]
        for bits in itertools.product((0, 1), repeat=len(cells)):
            deps = [[j for j in range(n) if bits[i * n + j]]
                    for i in range(n)]
            if n < 3 or deep:
                mixes = itertools.product(STYLES, repeat=n)
            else:
                mixes = [(s,) * n for s in STYLES] + list(
                    itertools.product(('math', 'np', 'alias'), repeat=n))
            for st in mixes:
                for nm in (0, 1) if n < 3 or st[0] == 'math' else (0,):
                    yield {'deps': deps, 'st': list(st), 'nm': nm}
            yield {'deps': deps, 'st': ['alias'] * n, 'nm': 0}
            if n > 0:
                yield {'deps': deps, 'st': ['path'] * n, 'nm': 0}
    n = 4
    if deep:
        for k, bits in enumerate(itertools.product((0, 1), repeat=16)):
            deps = [[j for j in range(n) if bits[i * n + j]]
                    for i in range(n)]
            yield {'deps': deps, 'st': [STYLES[k % 7]] * 4, 'nm': k % 2}
            yield {'deps': deps, 'st': [STYLES[(k + i) % 7]
                                        for i in range(4)], 'nm': 0}
    for f in itertools.product(range(-1, n), repeat=n):
        deps = [[j] if j >= 0 else [] for j in f]
        for s in STYLES + ['alias']:
            yield {'deps': deps, 'st': [s] * n, 'nm': 0}
            yield {'deps': deps, 'st': [s] * n, 'nm': 1, 'rev': 1}
    for length in (2, 3, 4, 5, 6, 7, 10, 25, 60):
        for tail in (0, 1, 5):
            for s in STYLES + ['alias', 'path']:
                for rev in (0, 1, 2):
                    yield {'ring': length, 'tail': tail, 'st': s, 'rev': rev}
    for depth in range(1, 8):
        for s in ('math', 'np', 'paren'):
            for back in (0, 1):
                for rev in (0, 1):
                    yield {'ladder': depth, 'st': s, 'back': back, 'rev': rev}
    for i in range(len(LOOKALIKE)):
        for rev in (0, 1):
            yield {'look': i, 'rev': rev}
    for i in range(len(GROUPREF)):
        for perm in itertools.permutations(range(3)):
            yield {'group': i, 'p': list(perm)}
    # a circle that only closes through the variables of library equations
    for n in (2, 3, 4):
        for kinds in itertools.product(('lib', 'dlib', 'np'), repeat=n):
            if set(kinds) == {'np'}:
                continue
            for perm in itertools.permutations(range(n + 1)):
                if n == 4 and not deep and sum(
                        perm[i] * (i + 1) for i in range(5)) % 8:
                    continue
                for inp in (0, 1):
                    for cut in (0, 1):
                        yield {'lring': list(kinds), 'p': list(perm),
                               'inp': inp, 'cut': cut}


# acyclic configs whose texts mention entry names in other roles
LOOKALIKE = [
    ({'e': 'g::e + 1'}, {'e': 3 * V + 1}),
    ({'e': 'g::e', 'g_e': 'e * 2'}, {'e': 3 * V, 'g_e': 6 * V}),
    ({'s': 'g::s::t', 't': 's + 1'}, {'s': V - 1, 't': V}),
    ({'t': 'g::s::t', 's': 't + g::s::t'}, {'t': V - 1, 's': 2 * (V - 1)}),
    ({'e': 'v * 1e3'}, {'e': 1000 * V}),
    ({'e3': 'v * 1e3', 'e': 2}, {'e3': 1000 * V}),
    ({'e3': 'v * 2.5e-3 + e', 'e': 'v'}, {'e3': V * 2.5e-3 + V}),
    ({'log': 'np.log(v)'}, {'log': np.log(V)}),
    ({'maximum': 'np.maximum(v, log)', 'log': 'np.log(v) + 1'},
     {'log': np.log(V) + 1, 'maximum': max(V, np.log(V) + 1)}),
    ({'sum': 'np.sum(v)', 'abs': 'np.abs(v) * 2'}, {'abs': 2 * V}),
    ({'axis': 'np.sum(np.ones(3) * v, axis=0)'}, {'axis': 3 * V}),
    ({'capex': 'capex_1 + capex_10', 'capex_1': 'v', 'capex_10': 'v * 10'},
     {'capex': 11 * V}),
    ({'capex_1': 'capex + 1', 'capex': 'capex_', 'capex_': 'v'},
     {'capex_1': V + 1}),
    ({'A': 'a + 1', 'a': 'v'}, {'A': V + 1, 'a': V}),
    ({'workspace_1': '(v + 1) * 2', 'workspace_2': '(workspace_1 + 1) * 2'},
     {'workspace_2': ((V + 1) * 2 + 1) * 2}),
    ({'pi': 'np.pi * v'}, {'pi': np.pi * V}),
    ({'m': '(n + n) * (n - o)', 'n': 'o * 2', 'o': 'v'},
     {'m': 4 * V * V}),
    ({'h1': 'v', 'h': 'h1 - h2', 'h2': 'h1 * 3'}, {'h': -2 * V}),
]
# groups or folders named in the config: (items, values or None if circular)
GROUPREF = [
    ([('G', 'g'), ('y', 'G::e'), ('z', 'y + G::s::t')],
     {'y': 3 * V, 'z': 3 * V + V - 1}),
    ([('G', 'H'), ('H', 'g'), ('y', 'G::e * 2')], {'y': 6 * V}),
    ([('e', 'G::e'), ('G', 'g'), ('t', 'G::s::t + e')],
     {'e': 3 * V, 't': V - 1 + 3 * V}),
    ([('G', 'H'), ('H', 'G'), ('y', 'G::e')], None),
    ([('G', 'y'), ('y', 'G::e'), ('z', 'v')], None),
    ([('G', 'G'), ('y', 'v'), ('z', 'v')], None),
    ([('G', 'H::s'), ('H', 'G'), ('y', 'v')], None),
    ([('G', 'G::s'), ('y', 'v'), ('z', 'v')], None),
]


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    p = {'z': 'v'}
    for i in range(6):
        p = {'z': 'v', 'q': p}
    u = {'u%d' % i: 'q%d + 1 - v' % i for i in range(5)}
    write_tree(d, {'L.json': ('json', u),
                   'dv': {'L.json': ('json', u), 'variables.json': (
                       'json', {'q%d' % i: 9 for i in range(5)})},
                   'g.json': ('json', {'e': '3 * v', 's': {'t': 'v - 1'}}),
                   'p.json': ('json', p)})
    sys.setrecursionlimit(1000)     # as in an ordinary Python process
    ctx.cache['lib'] = d


def cyclic(deps):
    n = len(deps)
    seen = [0] * n

    def go(i):
        if seen[i] == 1:
            return True
        if seen[i] == 2:
            return False
        seen[i] = 1
        if any(go(j) for j in deps[i]):
            return True
        seen[i] = 2
        return False
    return any(go(i) for i in range(n))


def text(names, i, deps, style):
    """-> text, function of the values of the entries"""
    ns = [names[j] for j in deps]
    if style == 'path':
        # sub groups of groups named in the config
        return (ns[0] + '::q' if ns else 'p'), None
    if not ns:
        return 'v * {}'.format(i + 2), lambda e: V * (i + 2)
    if style == 'alias':
        style = 'math' if len(ns) > 1 else style
    if style == 'alias':
        return ns[0], lambda e: e[ns[0]]

    def s(e):
        return sum(e[m] for m in ns)
    if style == 'math':
        return ' + '.join(ns) + ' + 1', lambda e: s(e) + 1
    if style == 'tight':
        return '2*' + '*'.join(ns), lambda e: 2 * np.prod([e[m] for m in ns])
    if style == 'np':
        return 'np.hypot({}, v)'.format(' + '.join(ns)), \
            lambda e: np.hypot(s(e), V)
    if style == 'npmath':
        return '1 + np.abs({}) * 0.5'.format(' + '.join(ns)), \
            lambda e: 1 + abs(s(e)) * 0.5
    if style == 'paren':
        return '(' * 2 + ' + '.join(ns) + ') * 0.5)', lambda e: s(e) * 0.5
    if style == 'neg':
        return '-' + ' - '.join(ns), lambda e: -s(e)
    assert style == 'pow'
    return '0.5 ** ({}) / 2'.format(' + '.join(ns)), \
        lambda e: np.float64(0.5) ** s(e) / 2


def build(case):
    """-> items, deps, functions"""
    if 'ring' in case:
        n, t = case['ring'], case['tail']
        deps = [[(i + 1) % n] for i in range(n)]
        deps += [[i - 1 if i > n else 0] for i in range(n, n + t)]
        st = [case['st']] * (n + t)
        names = ['r%d' % i for i in range(n + t)]
    elif 'ladder' in case:
        n = case['ladder']
        deps, names = [], []
        for i in range(n):
            deps += [[2 * i + 2, 2 * i + 3], [2 * i + 2, 2 * i + 3]]
        deps += [[], [0] if case['back'] else []]
        names = ['l%d' % i for i in range(len(deps))]
        st = [case['st']] * len(deps)
    else:
        deps, st = case['deps'], case['st']
        names = NAMESETS[case['nm']][:len(deps)]
    items, funs = [], []
    for i, d in enumerate(deps):
        tx, f = text(names, i, d, st[i])
        items.append((names[i], tx))
        funs.append(f)
    return items, deps, funs, names


def load(case, ctx, items):
    cfg = dict(items, equation_directory=ctx.cache['lib'])
    return ctx.call(NrwalConfig, cfg)


def refused(case, items, st, c, ctx):
    if not (st == 'err' and isinstance(c, RuntimeError)):
        fail('{}: circular {} gives {!r}, expected RuntimeError'.format(
            case, items, c))
    ctx.outcome('refused')


def accepted(case, items, st, c, ctx, want):
    if st == 'err':
        fail('{}: {} refused: {!r}'.format(case, items, c))
    st, out = ctx.call(c.evaluate, {'v': V})
    if st == 'err':
        fail('{}: {} failed: {!r}'.format(case, items, out))
    for k, v in want.items():
        got = config_value(c, out, k)
        if not scalar_close(got, v, 1e-6):
            fail('{}: {}: {} = {!r}, expected {!r}'.format(case, items, k,
                                                           got, v))
    ctx.outcome('accepted')


def run(case, ctx):
    ctx.state(case)
    if 'look' in case:
        cfg, want = LOOKALIKE[case['look']]
        items = list(cfg.items())
        if case['rev']:
            items = items[::-1]
        st, c = load(case, ctx, items)
        return accepted(case, items, st, c, ctx, want)
    if 'group' in case:
        items, want = GROUPREF[case['group']]
        items = [items[i] for i in case['p']]
        st, c = load(case, ctx, items)
        if want is None:
            return refused(case, items, st, c, ctx)
        return accepted(case, items, st, c, ctx, want)
    if 'lring' in case:
        return run_lring(case, ctx)
    items, deps, funs, names = build(case)
    circ = cyclic(deps)
    path = 'path' in case['st']
    if path and any(len(d) > 1 for d in deps):
        ctx.outcome('not in the family')
        return
    r = case.get('rev', 0)
    items2 = items[::-1] if r == 1 else items if r == 0 else \
        items[len(items) // 2:] + items[:len(items) // 2]
    st, c = load(case, ctx, items2)
    if circ:
        return refused(case, items2, st, c, ctx)
    if path:
        if st == 'err':
            fail('{}: {} refused: {!r}'.format(case, items2, c))
        for n in names:
            if not isinstance(c[n], EquationGroup):
                fail('{}: {} is {!r}'.format(case, n, c[n]))
        ctx.outcome('accepted')
        return
    want, todo = {}, set(range(len(deps)))
    while todo:
        for i in sorted(todo):
            if all(names[j] in want for j in deps[i]):
                want[names[i]] = funs[i](want)
                todo.discard(i)
                break
    accepted(case, items2, st, c, ctx, want)


def run_lring(case, ctx):
    n = len(case['lring'])
    items = []
    for i, k in enumerate(case['lring']):
        j = (i + 1) % n
        items.append(('q%d' % i, {'lib': 'L::u%d', 'dlib': 'dv::L::u%d',
                                  'np': 'np.add(q%d, 1 - v)'}[k] % j))
    if case['cut']:
        items[-1] = (items[-1][0], 'v * 2')
    items.append(('tail', 'np.add(q0, v)'))
    items = [items[i] for i in case['p']]
    st, c = load(case, ctx, items)
    inp = {'v': V, 'q0': 4.0} if case['inp'] else {'v': V}
    if case['cut']:
        want = {'q%d' % (n - 1): V * 2}
        for i in range(n - 2, -1, -1):
            want['q%d' % i] = want['q%d' % (i + 1)] + 1 - V
        want['tail'] = want['q0'] + V
        return accepted(case, items, st, c, ctx, want)
    if st == 'ok':
        st, c = ctx.call(c.evaluate, inp)
    refused(case, items, st, c, ctx)
