"""Every history of operations on a config object up to a depth (set / update /
clear inputs, evaluate with and without new inputs, evaluations that fail half
way, rejected inputs, output resets), over several configs: after each step the
inputs, missing inputs and evaluation results must equal those of a model that
remembers nothing but the inputs in force, and results handed out earlier must
stay as they were."""
import copy
import itertools
from mc.common import *

A2 = [1.5, 4.0]
A3 = [2.0, 3.0, 5.0]
# inputs per operation; lists stand for arrays, 'DF:' for a data table
SET = {
    's1': {'x': 2.0, 'y': 3.0}, 's2': {'x': 5.0}, 's3': {'y': 7},
    's4': {'x': A2}, 's5': {'y': A3}, 's6': {'k': 4.0}, 's7': {'b': 50.0},
    's8': {'z': 1.0}, 's9': {'x': [1.5, 4.000024]}, 's0': {'x': 0.0},
    's2b': {'x': 5.00003}, 'i1': {'x': 6.5}, 'i2': {'y': A2},
    'e0': None, 'e1': {'x': 11.0}, 'e2': {'x': 0.5, 'y': 0.25},
    'e3': {'x': A2, 'y': A2[::-1]}, 'e4': {'y': A3},
    'ee': {}, 'e5': {'x': 0, 'y': 3.00002}, 'e6': {'x': [1.500009, 4.0]},
}
OPS_ALL = list(SET) + ['c', 'r', 'ra', 'bad1', 'bad2', 'bad3', 'ebad', 'df',
                       'noop', 'ip', 'junk']
OPS_DEEP = ['s1', 's2', 's4', 's5', 's9', 'i1', 'c', 'e0', 'e1', 'e2',
            'e3', 'ee', 'r', 'bad2', 'ebad', 'df', 'junk']
CONFIGS = {
    'math': {'a': 'x + y', 'b': 'a * 2', 'm': 'b - x'},
    'lib': {'k': 3, 'b': 'x * 2', 'a': 'g::e1', 'm': 'g::e2 + 1'},
    'np': {'m': 'a + 1', 'a': 'np.maximum(x, y)', 'b': 'np.sqrt(a * a)'},
    'rev': {'m': 'g::e3', 'a': 'b', 'b': 'g::e1', 'k': 3},
}
# library: e1 = k * x + q (q default 10), e2 = b - y, e3 = a / (1 + y)
BOUNDS = {
    'quick': 'all histories of length <= 2 over {} operations and of length '
             '3 over all (2 or 1 of 4 configs, rotating), 4 over {} operations '
             '(1 config, rotating)'
             .format(len(OPS_ALL), len(OPS_DEEP)),
    'thorough': 'all histories of length <= 4 over {} operations x 4 configs, '
                'length 5 over {} operations'.format(len(OPS_ALL),
                                                     len(OPS_DEEP))}


def cases(tier):
    names = list(CONFIGS)
    for n in (1, 2, 3):
        for i, h in enumerate(itertools.product(OPS_ALL, repeat=n)):
            for c in (names if n < 3 or tier == 'thorough' else
                      names[i % 2::2] if 'e' in ''.join(h) else
                      [names[(i + i // 29) % 4]]):
                yield {'c': c, 'h': list(h)}
    if tier == 'thorough':
        for h in itertools.product(OPS_ALL, repeat=4):
            for c in names:
                yield {'c': c, 'h': list(h)}
        for i, h in enumerate(itertools.product(OPS_DEEP, repeat=5)):
            yield {'c': names[(i + i // 17) % 4], 'h': list(h)}
    else:
        for i, h in enumerate(itertools.product(OPS_DEEP, repeat=4)):
            yield {'c': names[(i + i // 17) % 4], 'h': list(h)}


def setup(ctx):
    import os
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    write_tree(d, {'g.json': ('json', {'e1': 'k * x + q', 'e2': 'b - y',
                                       'e3': 'a / (1 + y)'}),
                   'variables.json': ('json', {'q': 10.0})})
    ctx.cache['lib'] = d


def val(v):
    return np.array(v) if isinstance(v, list) else v


class Need(Exception):
    pass


def model(name, env):
    """Reference results for the inputs in force: None if inputs are missing,
    'fail' if the shapes do not fit."""
    need = {'math': 'xy', 'lib': 'xy', 'np': 'xy', 'rev': 'xy'}[name]
    miss = [v for v in need if v not in env]
    if miss:
        return miss, None
    x, y = env['x'], env['y']
    k = env.get('k', 3.0)
    q = env.get('q', 10.0)
    try:
        if name == 'math':
            a = x + y
            b = a * 2
            out = dict(a=a, b=b, m=b - x)
        elif name == 'lib':
            b = x * 2
            a = k * x + q
            out = dict(a=a, b=b, m=(b - y) + 1)
        elif name == 'np':
            a = np.maximum(x, y)
            out = dict(a=a, b=np.sqrt(a * a), m=a + 1)
        else:
            b = k * x + q
            out = dict(b=b, a=b, m=b / (1 + y))
    except ValueError:
        return [], 'fail'
    return [], out


def same(got, want):
    if isinstance(want, np.ndarray):
        got = np.asarray(got)
        return got.shape == want.shape and bool(
            np.all(np.abs(got - want) <= 2e-6 * (np.abs(want) + 0.5)))
    return scalar_close(got, want, 2e-6)


def run(case, ctx):
    name = case['c']
    cfg = NrwalConfig(dict(CONFIGS[name],
                           equation_directory=ctx.cache['lib']))
    env = {}
    handed = []
    for step, op in enumerate(case['h']):
        where = '{} step {} ({})'.format(case, step, op)
        new = SET.get(op)
        args = None if new is None else {k: val(v) for k, v in new.items()}
        ctx.state([name, sorted((k, repr(v)) for k, v in env.items()), op])
        if op[0] == 'e':
            if op == 'ebad':
                st, r = ctx.call(cfg.evaluate, {'x': 4.0, 'y': 'no'})
                if st == 'ok':
                    fail(where + ': a string input was accepted')
                ctx.outcome('rejected')
            else:
                st, r = ctx.call(cfg.evaluate, args) if args is not None \
                    else ctx.call(cfg.evaluate)
                if args is not None:
                    env.update({k: val(v) for k, v in new.items()})
                evaluated(where, name, env, st, r, handed, ctx)
        elif op == 'c':
            ctx.op()
            cfg.inputs = None
            env = {}
        elif op == 'df':
            ctx.op()
            cfg.inputs = pd.DataFrame({'x': [3.0, 1.0], 'y': [2, 8]})
            env.update(x=np.array([3.0, 1.0]), y=np.array([2.0, 8.0]))
        elif op == 'r':
            ctx.call(cfg.reset_output)
        elif op == 'ra':
            ctx.call(cfg.reset_output, 'a')
        elif op == 'ip':
            # the array among the inputs is changed in place
            ctx.op()
            for v in (cfg.inputs, env):
                if isinstance(v.get('x'), np.ndarray):
                    v['x'][-1] = 2.25
        elif op == 'junk':
            # the caller uses the latest results for something else
            ctx.op()
            if handed:
                r = handed.pop()[0]
                for k in list(r):
                    if isinstance(r[k], np.ndarray):
                        r[k][...] = -77.0
                    else:
                        r[k] = -88.0
        elif op == 'noop':
            ctx.op()
            cfg.inputs = {}
        elif op.startswith('bad'):
            bad = {'bad1': {'y': 9.0, 'x': 'a string'}, 'bad2': 5,
                   'bad3': {'x': 6.0, 'y': None}}[op]
            st, r = ctx.call(setattr, cfg, 'inputs', bad)
            if st == 'ok':
                fail(where + ': the input was accepted')
            ctx.outcome('rejected')
        elif op[0] == 'i':
            ctx.op()
            for k, v in args.items():
                cfg.inputs[k] = v
            env.update({k: val(v) for k, v in new.items()})
        else:
            ctx.op()
            cfg.inputs = args
            env.update({k: val(v) for k, v in new.items()})
        if args is not None:
            for k, v in args.items():
                if not np.array_equal(v, val(new[k])):
                    fail(where + ': argument changed')
        observe(where, cfg, env, name)
    # last: an evaluation with what is in force, and one with complete inputs
    st, r = ctx.call(cfg.evaluate)
    evaluated('{} final'.format(case), name, env, st, r, handed, ctx)
    env.update(x=1.25, y=-3.5)
    st, r = ctx.call(cfg.evaluate, {'x': 1.25, 'y': -3.5})
    evaluated('{} final with inputs'.format(case), name, env, st, r, handed,
              ctx)
    for obj, snap, where in handed:
        if set(obj) != set(snap) or any(
                not np.array_equal(np.asarray(obj[k]), np.asarray(snap[k]))
                for k in snap):
            fail('{}: the results handed out at {} changed from {} to {}'
                 .format(case, where, snap, obj))


def observe(where, cfg, env, name):
    inp = cfg.inputs
    if set(inp) != set(env) or any(not same(inp[k], env[k]) for k in env):
        fail('{}: inputs are {}, expected {}'.format(where, inp, env))
    miss, _ = model(name, env)
    if list(cfg.missing_inputs) != sorted(miss):
        fail('{}: missing inputs {}, expected {}'.format(
            where, cfg.missing_inputs, miss))
    if bool(cfg.solvable) != (not miss):
        fail('{}: solvable {}'.format(where, cfg.solvable))


def evaluated(where, name, env, st, r, handed, ctx):
    miss, want = model(name, env)
    if miss or want == 'fail':
        ctx.outcome('missing' if miss else 'failed')
        if st == 'ok' or not isinstance(r, RuntimeError):
            fail('{}: {!r}, expected RuntimeError (inputs {})'.format(
                where, r, env))
        return
    ctx.outcome('evaluated')
    if st == 'err':
        fail('{}: {!r} (inputs {})'.format(where, r, env))
    for k, v in want.items():
        if k not in r or not same(r[k], v):
            fail('{}: {} = {!r}, expected {!r} (inputs {})'.format(
                where, k, r.get(k), v, env))
    if set(r) - set(want) - {'k'}:
        fail('{}: unexpected results {}'.format(where, r))
    handed.append((r, copy.deepcopy(dict(r)), where))
