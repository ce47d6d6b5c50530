"""Every kind of object (equations, groups, variable groups, directories,
configs) x every short history of operations before it is copied x every way of
copying (deepcopy, pickle protocols) x every short history on the original and
the copy afterwards: the copy must behave like the original at the moment of
copying, the same operations must have the same effect on both, and neither may
change with the other."""
import copy
import itertools
import os
import pickle
from mc.common import *
from mc.c15 import fp, diff, refuse

CASE_LIMIT = 20
SUB = []
COPY = {
    'deep': copy.deepcopy, 'p2': lambda o: pickle.loads(pickle.dumps(o, 2)),
    'p5': lambda o: pickle.loads(pickle.dumps(o, 5)),
    'twice': lambda o: copy.deepcopy(pickle.loads(pickle.dumps(o))),
    'inlist': lambda o: copy.deepcopy([o, {'k': o}])[0]}
G = {'a': 'x * k', 'b': 'a + y', 'p_3MW': 'x + 3 * k', 'p_6MW': 'x + 6',
     'q_2015': '10', 'q_2020': 'x', 's': {'t': 'x - k', 'p_3MW': 'y',
                                          'p_9MW': 'x', 'u': {'v': 'k'}}}
CFG = {'c1': 5, 'lib': 'g::a + 1', 'tot': 'lib * 2 - y', 'np1':
       'np.maximum(tot, x)', 'grp': 'g', 'mem': 'grp::s::t / c1',
       'al': 'tot', 'near': 'g::p_4MW', 'interp_extrap_power': True,
       'use': 'sub::h::w', 'fold': 'sub'}
DIRS = {'g.json': ('json', G), 'variables.json': ('json', {'k': 2.0}),
        'sub': {'h.json': ('json', {'w': 'tot / k', 'm': 'x ** 2'}),
                'variables.yaml': ('yaml', {'k': 4.0, 'z': 0})}}
FLAGS = [{}, {'interp_extrap_power': True}, {'use_nearest_power': True,
                                             'interp_extrap_year': True},
         {'use_nearest_year': True}]
ARR = np.array([1.0, 2.5, -3.0])


def E(lib):
    out = {'plain': lambda: Equation('x * k - 1', name='e'),
           'const': lambda: Equation(-3.5),
           'dflt': lambda: Equation('x * k', default_variables={
               'k': 2.0, 'm': ARR.copy()}),
           'comp': lambda: Equation('x - 1', name='l') * Equation(
               'k + x', default_variables={'k': 3}) ** 2,
           'V': lambda: VariableGroup({'k': 1.0, 'q_2015': 2, 'q_2025': 4},
                                      **FLAGS[2])}
    for i, f in enumerate(FLAGS):
        out['G%d' % i] = lambda f=f: EquationGroup(G, name='grp', **f)
        out['D%d' % i] = lambda f=f: EquationDirectory(lib, **f)
    out['S'] = lambda: EquationGroup(G) + {'n': 'x + 9'}
    out['C'] = lambda: NrwalConfig(dict(CFG, equation_directory=lib))
    out['CI'] = lambda: NrwalConfig(dict(CFG, equation_directory=lib),
                                    inputs={'x': ARR.copy(), 'y': 2})
    out['CF'] = lambda: NrwalConfig(lib + '_c.yaml')
    out['GF'] = lambda: EquationGroup(os.path.join(lib, 'g.json'), **FLAGS[2])
    out['DS'] = lambda: EquationDirectory(lib, **FLAGS[1]) + os.path.join(
        lib, 'sub')
    out['sub'] = lambda: EquationDirectory(lib, **FLAGS[2])['sub']
    out['subg'] = lambda: EquationDirectory(lib, **FLAGS[1])['g::s']
    out['ent'] = lambda: dict(out['C']().items())['tot']
    return out


def _eval(c, inp):
    try:
        c.evaluate(inp)
    except RuntimeError:
        pass


OPS_E = {'set': lambda o: o.set_default_variables({'k': 30.0}),
         'set2': lambda o: o.set_default_variables({'m': 7, 'x': 0.5}),
         'look': lambda o: o.default_variables.update(k=-1.0)}
OPS_C = {'in1': lambda c: setattr(c, 'inputs', {'x': 2.0, 'y': 3}),
         'in2': lambda c: setattr(c, 'inputs', {'x': ARR.copy()}),
         'item': lambda c: c.inputs.__setitem__('y', 8.0),
         'clear': lambda c: setattr(c, 'inputs', None),
         'eval': lambda c: _eval(c, None),
         'eval1': lambda c: _eval(c, {'x': ARR.copy(), 'y': -ARR}),
         'fail': lambda c: _eval(c, {'x': np.ones(2), 'y': np.ones(3)}),
         'reset': lambda c: c.reset_output(),
         'rtot': lambda c: c.reset_output('tot'),
         'entry': lambda c: dict(c.items())['lib'].set_default_variables(
             {'k': 6.0})}
BOUNDS = {'quick': '24 objects, 5 ways of copying, up to 2 operations in total '
                   '(configs; 10 operations) or 3 (others; 3 operations), '
                   'before the copy and, on the copy or the original, after '
                   'it; with 2 or more operations one way of copying each',
          'thorough': 'configs: up to 3 operations in total, others 4; all '
                      'ways of copying'}
KINDS = ['plain', 'const', 'dflt', 'comp', 'V', 'S', 'C', 'CI',
         'CF', 'GF', 'DS', 'sub', 'subg', 'ent'] + [
    a + str(i) for a in 'GD' for i in range(len(FLAGS))]


def cases(tier):
    deep = tier == 'thorough'
    ways = list(COPY)
    for kind in KINDS:
        conf = kind[0] == 'C'
        ops = OPS_C if conf else {} if kind == 'V' else OPS_E
        for nb in (0, 1, 2, 3) if deep and conf else (0, 1, 2):
            for k, before in enumerate(itertools.product(ops, repeat=nb)):
                for na in (0, 1, 2):
                    if na + nb > 2 + deep + (not conf):
                        continue
                    for n, after in enumerate(itertools.product(
                            itertools.product('oc', ops), repeat=na)):
                        for how in ways if na + nb < 2 or deep else [
                                ways[(k + n) % 5]]:
                            yield {'kind': kind, 'before': list(before),
                                   'how': how,
                                   'after': [list(a) for a in after]}


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    write_tree(d, DIRS)
    write_tree(ctx.scratch, {'lib_c.yaml': (
        'yaml', dict(CFG, equation_directory=d))})
    ctx.cache['lib'] = d
    SUB[:] = [os.path.join(d, 'sub')]


KEYS = ['a', 'b', 'p_4MW', 'p_12MW', 'q_2017', 's::p_6MW', 's::t', 'a + b',
        '2 * s::t - a', 'none', 's::none', 'k', 'q_2016']


def behaviour(o):
    """what a user can see of the object"""
    out = [fp(o), str(o)]
    if isinstance(o, Equation):
        for kw in ({'x': 1.5}, {'x': ARR, 'k': 2}, {'x': 1, 'k': 2, 'm': 3}):
            out.append(attempt(lambda: o.eval(**kw)))
        out.append(attempt(lambda: (o + 'k')))
    elif isinstance(o, NrwalConfig):
        out += [list(o.keys()), o.required_inputs, o.missing_inputs,
                o.solvable, o.solved, o.to_be_solved, o.all_variables]
        out += [fp(o[k]) for k in o.keys()]
    else:
        pre = 'g::' if isinstance(o, EquationDirectory) else ''
        out += [list(o.keys())]
        out += [attempt(lambda: o[pre + k]) for k in KEYS]
        out += [attempt(lambda: fp(o.get('nothing', 'fallback')))]
        if not isinstance(o, VariableGroup):
            out.append([fp(e) for e in o.all_equations])
            out.append(attempt(lambda: o + (
                SUB[0] if isinstance(o, EquationDirectory)
                else {'n': 'x', 'a': 'k'})))
    return out


def attempt(f):
    try:
        return fp(f())
    except Exception as e:
        return type(e).__name__


def run(case, ctx):
    kind = case['kind']
    o = E(ctx.cache['lib'])[kind]()
    ops = OPS_C if kind[0] == 'C' else OPS_E
    for b in case['before']:
        ctx.op()
        ops[b](o)
    first = behaviour(o)
    st, c = ctx.call(COPY[case['how']], o)
    ctx.state([kind, case['before'], case['after']])
    if st == 'err':
        fail('{}: copying failed: {!r}'.format(case, c))
    if type(c) is not type(o) or c is o:
        fail('{}: the copy is {!r}'.format(case, c))
    for what, obj in (('copy', c), ('original', o)):
        b = behaviour(obj)
        if b != first:
            fail('{}: the {} differs after copying: {}'.format(
                case, what, diff(first, b)))
    # independent afterwards; twin gets the operations in the same way
    twin = {}
    for who in 'oc':
        t = E(ctx.cache['lib'])[kind]()
        for b in case['before']:
            ops[b](t)
        twin[who] = t
    objs = {'o': o, 'c': c}
    for who, op in case['after']:
        ctx.op()
        ops[op](objs[who])
        ops[op](twin[who])
    for who in 'oc' if case['after'] else '':
        b, w = behaviour(objs[who]), behaviour(twin[who])
        if b != w:
            fail('{}: {} behaves differently from an object that was not '
                 'copied: {}'.format(case, {'o': 'the original',
                                            'c': 'the copy'}[who],
                                     diff(w, b)))
    if kind[0] == 'C':
        for who in 'oc':
            for obj in (objs[who], twin[who]):
                _eval(obj, {'x': 1.25, 'y': 0.5})
            b, w = behaviour(objs[who]), behaviour(twin[who])
            if b != w:
                fail('{}: evaluation differs: {}'.format(case, diff(w, b)))
    ctx.outcome('equal')
