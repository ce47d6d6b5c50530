"""Every combination of the sources that can provide a variable of a library
equation used by a config (config entry: none, number, numeric text, constant
expression, library constant, computed from an input, computed by a library
equation or a numpy call, alias of a computed or constant entry; input: none,
scalar or array, by three routes; variables files in none, either or both of the
enclosing folders) x every way the variable is used x every order of the config
entries: the value used must be the one of the source with the highest priority
and the variable is required if and only if there is no source."""
import itertools
import os
from mc.common import *

X = 1.75
D_OWN, D_PAR = 4.0, 5.5
IN = {'none': None, 'scalar': 9.25, 'zero': 0, 'array': np.array([9.25, -2.0, 11.0])}
# kind of config entry for k: (text, class, value function of x)
SRC = {
    'none': (None, None, None),
    'num': (6.5, 'const', lambda x: 6.5),
    'int': (6, 'const', lambda x: 6.0),
    'zero': (0, 'const', lambda x: 0.0),
    'text': ('6.5', 'const', lambda x: 6.5),
    'calc': ('2.5 * 3', 'const', lambda x: 7.5),
    'lconst': ('a::b::g::const', 'const', lambda x: 8.25),
    'comp': ('x * 7', 'comp', lambda x: x * 7),
    'lib': ('a::b::g::kx', 'comp', lambda x: x - 20),
    'np': ('np.sqrt(x + 7)', 'comp', lambda x: np.sqrt(x + 7)),
    'alias': ('m', 'comp', lambda x: x + 30),
    'aliasc': ('c', 'const', lambda x: 12.5),
}
# use of k: (text of y, kind, function of x, k)
USES = {
    'path': ('a::b::g::e', 'lib', lambda x, k: x - k),
    'math': ('2 * a::b::g::e - x', 'lib', lambda x, k: 2 * (x - k) - x),
    'paren': ('(a::b::g::e + 1) / 2', 'lib', lambda x, k: (x - k + 1) / 2),
    'two': ('a::b::g::e * a::b::g::e2', 'lib',
            lambda x, k: (x - k) * (x * k + 1)),
    'grp': ('G::e', 'lib', lambda x, k: x - k),
    'grpmath': ('G::e + G::e2', 'lib', lambda x, k: x - k + x * k + 1),
    'dir': ('D::g::e', 'lib', lambda x, k: x - k),
    'dirmath': ('D::g::e - 3', 'lib', lambda x, k: x - k - 3),
    'ref': ('a::b::g::r', 'lib', lambda x, k: (x - k) * 3),
    'lk': ('a::b::g::k3', 'lib', lambda x, k: k * 3),
    'lkmath': ('1 - a::b::g::k3 / 2', 'lib', lambda x, k: 1 - k * 1.5),
    'npk': ('np.square(k)', 'np', lambda x, k: k * k),
    'nest': ('a::b::g::s::t', 'lib', lambda x, k: k / 4 + x),
    'np': ('np.subtract(x, k)', 'np', lambda x, k: x - k),
    'npmath': ('1 + np.multiply(x, k + 1) / 2', 'np',
               lambda x, k: 1 + x * (k + 1) / 2),
    'npin': ('np.add(np.minimum(k, 100), x)', 'np',
             lambda x, k: np.minimum(k, 100) + x),
    'cfg': ('x * k', 'cfg', lambda x, k: x * k),
    'cfg2': ('(k - 1) / x', 'cfg', lambda x, k: (k - 1) / x),
    'cfgalias': ('k', 'cfg', lambda x, k: k + 0 * x),
}
VARS = ['none', 'own', 'par', 'both', 'zero']
ROUTES = ['eval', 'ctor', 'set']
BOUNDS = {
    'quick': '{} kinds of config entry x {} uses x 4 input forms x 5 placements '
             'of variables files x 3 input routes x all entry orders (up to 24 '
             'per combination; all 120 only in thorough), one and two uses per '
             'config'.format(len(SRC), len(USES)),
    'thorough': 'the same with all orders for every pair of uses'}
ASSUMPTIONS = ['config arithmetic that uses a config constant directly is '
               'judged with the constant (see known finding) when an input '
               'of the same name is supplied']
CASE_LIMIT = 30


def cases(tier):
    for src, use, i, v in itertools.product(SRC, USES, IN, VARS):
        if use not in ('path', 'np', 'grp', 'dir', 'math') \
                and v in ('par', 'zero') and tier == 'quick':
            continue
        yield {'src': src, 'uses': [use], 'in': i, 'vars': v}
    for src, i, v in itertools.product(SRC, IN, ('none', 'both')):
        for u1, u2 in itertools.permutations(USES, 2):
            if (u1 > u2 or i == 'zero') and tier == 'quick':
                continue
            yield {'src': src, 'uses': [u1, u2], 'in': i, 'vars': v}


def setup(ctx):
    g = {'e': 'x - k', 'e2': 'x * k + 1', 'const': 8.25, 'kx': 'x - 20',
         'r': 'e * 3', 'k3': 'k * 3', 's': {'t': 'k / 4 + x'}}
    for v in VARS:
        d = os.path.join(ctx.scratch, 'lib_' + v)
        os.mkdir(d)
        b = {'g.json': ('json', g)}
        a = {'b': b}
        if v in ('own', 'both'):
            b['variables.json'] = ('json', {'k': D_OWN})
        if v == 'zero':
            b['variables.json'] = ('json', {'k': 0})
        if v in ('par', 'both', 'zero'):
            a['variables.json'] = ('json', {'k': D_PAR})
        write_tree(d, {'a': a})


def run(case, ctx):
    src, kind, fsrc = SRC[case['src']]
    uses = case['uses']
    cfg = {}
    if src is not None:
        cfg['k'] = src
    if case['src'] == 'alias':
        cfg['m'] = 'x + 30'
    if case['src'] == 'aliasc':
        cfg['c'] = 12.5
    if any('G::' in USES[u][0] for u in uses):
        cfg['G'] = 'a::b::g'
    if any('D::' in USES[u][0] for u in uses):
        cfg['D'] = 'a::b'
    for n, u in enumerate(uses):
        cfg['y{}'.format(n)] = USES[u][0]
    names = list(cfg)
    perms = list(itertools.permutations(names))
    if len(perms) > 24 and ctx.tier == 'quick':
        perms = perms[::len(perms) // 24][:24]
    lib = os.path.join(ctx.scratch, 'lib_' + case['vars'])
    inp = {'x': X}
    if IN[case['in']] is not None:
        inp['k'] = IN[case['in']]
    default = {'none': None, 'own': D_OWN, 'par': D_PAR,
               'both': D_OWN, 'zero': 0.0}[case['vars']]
    known = None
    routes = ROUTES if len(uses) == 1 else ROUTES[:1]
    for order in perms:
        for route in routes:
            full = {n: cfg[n] for n in order}
            full['equation_directory'] = lib
            kw = {'inputs': dict(inp)} if route == 'ctor' else {}
            st, c = ctx.call(NrwalConfig, full, **kw)
            if st == 'err':
                fail('{} order {}: refused {!r}'.format(case, order, c))
            # which uses have a source besides the input?
            req = {'x'} if any(
                'x' in cfg_vars(u) for u in uses) or (
                    kind == 'comp') else set()
            for u in uses:
                if kind is None and not (USES[u][1] == 'lib'
                                         and default is not None):
                    req.add('k')
            ctx.state([case, order, route])
            if list(c.required_inputs) != sorted(req):
                fail('{} order {}: required {} expected {}'.format(
                    case, order, c.required_inputs, sorted(req)))
            if route == 'set':
                c.inputs = dict(inp)
                ctx.op()
            st, out = ctx.call(c.evaluate,
                               dict(inp) if route == 'eval' else None)
            if 'k' in req and 'k' not in inp:
                ctx.outcome('missing')
                if not (st == 'err' and isinstance(out, RuntimeError)):
                    fail('{} order {}: {!r} although k has no source'.format(
                        case, order, out))
                continue
            if st == 'err':
                fail('{} order {} {}: {!r}'.format(case, order, route, out))
            for n, u in enumerate(uses):
                if kind == 'comp':
                    kv = fsrc(X)
                elif 'k' in inp:
                    kv = inp['k']
                elif kind == 'const':
                    kv = fsrc(X)
                else:
                    kv = default
                want = USES[u][2](X, kv)
                got = config_value(c, out, 'y{}'.format(n))
                ctx.outcome('used')
                if ok(got, want):
                    continue
                if USES[u][1] == 'cfg' and kind == 'const' and 'k' in inp \
                        and ok(got, USES[u][2](X, fsrc(X))):
                    known = ('{} order {}: input k={!r} is not used in the '
                             'config expression {!r}, where k is a constant'
                             .format(case, order, inp['k'], USES[u][0]))
                    continue
                fail('{} order {} {}: {} = {!r}, expected {!r}'.format(
                    case, order, route, USES[u][0], got, want))
            # groups and folders that are config entries know the constants
            for name, path in (('G', 'e'), ('D', 'g::e')):
                if name not in cfg:
                    continue
                kv = (fsrc(X) if case['src'] in ('num', 'int', 'zero', 'text')
                      else default if kind is None else None)
                if kv is None:
                    continue
                st, got = ctx.call(lambda: c[name][path].eval(x=X))
                if st == 'err' or not ok(got, X - kv):
                    fail('{} order {} {}: {}::{} = {!r}, expected {!r}'.format(
                        case, order, route, name, path, got, X - kv))
                st, got = ctx.call(lambda: c[name][path].eval(x=X, k=2.0))
                if st == 'err' or not ok(got, X - 2.0):
                    fail('{} order {} {}: {}::{} with k = {!r}'.format(
                        case, order, route, name, path, got))
    if known:
        ctx.outcome('known finding')
        fail(known, key='input-does-not-override-constant-inlined-in-config-'
                        'arithmetic')


def cfg_vars(u):
    return {'x'} if u not in ('cfgalias', 'lk', 'lkmath', 'npk') else set()


def ok(got, want):
    if isinstance(got, (Equation, str)):
        return False
    if np.ndim(want):
        return close(np.asarray(got, float), np.asarray(want, float), 1e-5)
    return np.ndim(got) == 0 and scalar_close(got, want, 1e-6)
