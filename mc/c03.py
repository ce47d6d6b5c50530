"""Every tree of operators over every assignment of operand kinds is built with
Equation arithmetic; value, variables and default variables of the result must
be those of the model, and the operands must be unchanged."""
import itertools
import operator
from mc.common import *

A = dict(a1=1.37, a2=0.83, a3=2.11, a4=0.59, p=0.77, q=1.21, r=0.43)
FUN = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '**': operator.pow}
# kind: (how, text, defaults); how: eq / named / raw (right operand only) /
# grp (member of a group)
KINDS = {
    'sum': ('eq', 'a1 + 0.25', None), 'var': ('eq', 'a2', None),
    'dif': ('named', 'a1 - a2', None), 'neg': ('eq', '-a3', None),
    'i': ('eq', 2, None), 'ni': ('eq', -3, None), 'nf': ('eq', '-0.7', None),
    'f': ('eq', 0.5, None), 'sci': ('eq', '1.5e-1', None),
    'nsci': ('eq', '-2e-1', None), 'mod': ('eq', 'a3%a2', None),
    'div': ('eq', 'a3/a4/a2', None), 'pow': ('eq', 'a2**a4', None),
    'np': ('eq', 'np.exp(a4)', None), 'npm': ('named', 'np.maximum(a1,a2)', None),
    'cmp': ('eq', 'a1>a2', None), 'nob': ('eq', 'a1-a4', None),
    'par': ('eq', '(a1)-(a2)', None), 'sp': ('eq', ' a1 ', None),
    'dp': ('eq', 'a1 * p', {'p': 1.9}), 'dp2': ('named', 'p - a2', {'p': 0.33}),
    'dpq': ('eq', 'p / q', {'p': 2.3, 'q': -0.9}),
    'dun': ('eq', 'a4', {'r': 0.11}), 'dup': ('eq', 'a2', {'p': 5.1, 'r': 3}), 'grp': ('grp', 'a1 - r', {'r': 1.6}),
    'ri': ('raw', 3, None), 'rni': ('raw', -2, None), 'rf': ('raw', 0.8, None),
    'rnf': ('raw', -1.5, None), 'rs': ('raw', 'a1 - a2', None),
    'rsn': ('raw', '-a4', None), 'rn': ('raw', '-2', None),
    'rv': ('raw', 'a3', None), 'rlong': ('raw', 1234567.8912345, None),
    'rbig': ('raw', 1234.56789012, None), 'rtiny': ('raw', -1.23456789e-7, None),
    'long': ('eq', 0.30000000000000004, None), 'zero': ('eq', 0, None),
    'spn': ('eq', ' -0.7', None), 'pos': ('eq', '+2', None),
    'spv': ('eq', '  -a4 ', None), 'tab': ('eq', '\ta1\t-\ta2', None),
    'rsp': ('raw', ' -2 ', None), 'rnp': ('raw', np.float64(-0.3), None),
    'rnpi': ('raw', np.int32(4), None), 'flr': ('eq', 'a3//a4', None),
    'le': ('eq', 'a1<=a2', None), 'eqs': ('named', 'a1==a2', None),
    'and': ('eq', '(a1>a2)&(a3>a4)', None), 'abs': ('eq', 'abs(a1-9)', None),
    'idx': ('eq', 'np.array([a1,a2])[0]', None),
    'kw': ('eq', 'np.clip(a1,a_min=0.1,a_max=a2)', None),
    'dsp': ('eq', ' a1 * p ', {'p': 1.9, 'a9': 4}),
    'r0': ('raw', 0, None), 'rslong': ('raw', '98765.4321012345', None),
}
LEFT = [k for k in KINDS if KINDS[k][0] != 'raw']
CORE = ['sum', 'ni', 'nf', 'dif', 'dp', 'dp2', 'mod', 'dup']
BOUNDS = {'quick': 'all pairs of {} operand kinds x 5 operators x nesting in 4 '
                   'contexts; all trees of 3 leaves over {} kinds, of 4 '
                   'leaves over 3 kinds; every operand used twice; chains to '
                   '60'.format(len(KINDS), len(CORE)),
          'thorough': 'as quick with all kinds at 3 leaves and {} kinds at 4 '
                      'leaves, 5 leaves over 2 kinds'.format(len(CORE))}


def cases(tier):
    big = tier == 'thorough'
    for k1, k2 in itertools.product(LEFT, KINDS):
        for op in FUN:
            yield {'t': [0, 0, 1], 'o': [op], 'k': [k1, k2]}
            for op2 in ('-', '/', '**'):
                yield {'t': [1, [0, 0, 1], 2], 'o': [op, op2],
                       'k': [k1, k2, 'var']}
                if KINDS[k2][0] != 'raw':
                    yield {'t': [0, 0, [1, 1, 2]], 'o': [op2, op],
                           'k': ['var', k1, k2]}
    for k in LEFT:
        for op in FUN:
            yield {'t': [0, 0, 0], 'o': [op], 'k': [k]}
            for op2 in FUN:
                yield {'t': [1, [0, 0, 0], 0], 'o': [op, op2], 'k': [k]}
                yield {'t': [1, 0, [0, 0, 0]], 'o': [op, op2], 'k': [k]}
    lk = LEFT if big else CORE
    for tree in shapes(3):
        for ks in itertools.product(lk, repeat=3):
            for ops in itertools.product(FUN, repeat=2):
                yield {'t': lst(tree), 'o': list(ops), 'k': list(ks)}
    for tree in shapes(4):
        for ks in itertools.product(CORE if big else ('ni', 'dif', 'dp'),
                                    repeat=4):
            for ops in itertools.product(FUN, repeat=3):
                if not big and ops.count('+') > 1:
                    continue
                yield {'t': lst(tree), 'o': list(ops), 'k': list(ks)}
    if big:
        for tree in shapes(5):
            for ks in itertools.product(('nf', 'dp'), repeat=5):
                for ops in itertools.product(FUN, repeat=4):
                    yield {'t': lst(tree), 'o': list(ops), 'k': list(ks)}
    for n in (5, 10, 20, 40, 60):
        for op in ('+', '-', '*', '/'):
            t = 0
            for i in range(n):
                t = [i, t, (i + 1) % 5]
            yield {'t': t, 'o': [op] * n,
                   'k': ['sum', 'dif', 'nf', 'dp', 'dp2']}


def lst(t):
    return t if isinstance(t, int) else [t[0], lst(t[1]), lst(t[2])]


def build(kind):
    how, text, d = KINDS[kind]
    d = None if d is None else dict(d)
    if how == 'raw':
        return text
    if how == 'grp':
        g = EquationGroup({'m': text, 'other': 'zz'})
        g.set_default_variables(d)
        return g['m']
    return Equation(text, name='nm_' + kind if how == 'named' else None,
                    default_variables=d)


def snap(o):
    if isinstance(o, Equation):
        return [o.full, list(o.variables), dict(o.default_variables),
                repr(o.eval(**A))]
    return o


def run(case, ctx):
    import ast
    objs = [build(k) for k in case['k']]
    before = [snap(o) for o in objs]
    ctx.op(len(objs))
    ops = case['o']

    def val(k, env):
        return eval(str(KINDS[k][1]).strip(), {'np': np}, env)

    def model(t, env):
        if isinstance(t, int):
            return val(case['k'][t], env)
        return FUN[ops[t[0]]](model(t[1], env), model(t[2], env))

    def defaults(t):
        if isinstance(t, int):
            return dict(KINDS[case['k'][t]][2] or {})
        d = defaults(t[1])
        only_left = names(t[1]) - names(t[2])
        d.update({k: v for k, v in defaults(t[2]).items()
                  if k not in d or k not in only_left})
        return d

    def names(t):
        if isinstance(t, int):
            tree = ast.parse(str(KINDS[case['k'][t]][1]).strip(), mode='eval')
            return {n.id for n in ast.walk(tree)
                    if isinstance(n, ast.Name)} - {'np', 'abs'}
        return names(t[1]) | names(t[2])

    def impl(t):
        if isinstance(t, int):
            return objs[t]
        ctx.op()
        return FUN[ops[t[0]]](impl(t[1]), impl(t[2]))

    t = case['t']
    ctx.state(case)
    out = impl(t)
    if not isinstance(out, Equation):
        fail('result is not an Equation')
    if list(out.variables) != sorted(names(t)):
        fail('variables {} expected {}'.format(out.variables,
                                               sorted(names(t))))
    want_d = defaults(t)
    if dict(out.default_variables) != want_d:
        fail('default variables {} expected {}'.format(out.default_variables,
                                                       want_d))
    for omit in ((), tuple(want_d)) if want_d else ((),):
        run_env = {k: v for k, v in A.items() if k not in omit}
        env = dict(want_d)
        env.update(run_env)
        try:
            want = model(t, env)
        except (ZeroDivisionError, OverflowError):
            st, got = ctx.call(out.eval, **run_env)
            if st == 'ok':
                fail('value {} where arithmetic fails'.format(got))
            ctx.outcome('arithmetic error')
            continue
        st, got = ctx.call(out.eval, **run_env)
        if st == 'err':
            fail('{} does not evaluate: {!r}'.format(out.full, got))
        if not scalar_close(got, want):
            fail('{} = {!r}, expected {!r}'.format(out.full, got, want))
        ctx.outcome('equal')
    # updating the result must not reach the operands, nor the reverse
    out.set_default_variables({'p': 123.0, 'zz': 1.0})
    after = [snap(o) for o in objs]
    if after != before:
        fail('operands changed: {} -> {}'.format(before, after))
