"""Every formula of the enumerated grammar (spellings of names and numbers x
operators x calls x spacing) must report exactly its free names (python ast)
and evaluate to Python's value; for every assignment of each variable to
missing / default / run time / both the evaluation gives the model's value or
RuntimeError."""
import ast
import itertools
from mc.common import *

NAMES = ['a', 'x1', 'co2e', 'x1e5', 'e', 'E', 'e1', '_a', 'a_', 'A', 'values',
         'items', 'keys', 'copy', 'get', 'pop', 'update', 'np_x', 'pd1', 'npx',
         'maxx', 'absx', 'depth_10MW', 'a1b2', 'x2e', 'inf1', 're', 'logger',
         'pi', 'T', 'Equation', 'd1e', 'e5', 'e5x', 'E5', 'x_2015', 'is_x',
         'not_a', 'self1', 'kwargs', 'globals', 'b1E', 'num_turbines', 'dtype',
         'sum', 'max', 'abs']
NUMS = ['1', '2.5', '.5', '3.', '1e5', '1.5e-3', '2E+2', '1e-05', '10', '0.25',
        '7e0', '.2e1', '4.e1']
BIN = ['+', '-', '*', '/', '**', '%', '//', '<', '>', '<=', '>=', '==', '!=']
UN = ['{n}', '-{n}', '+{n}', '({n})', '-({n})', '(({n}))', '{n}*1', ' {n}',
      '{n} ', 'np.exp({n})', 'np.exp(-{n})', 'np.exp( {n} )', 'np.log10({n})',
      'np.maximum({n}, 2)', 'np.maximum({n},2)', 'np.maximum(2,{n})',
      'np.maximum(1e-3,{n})', 'np.where({n}>1, {n}, 0.5)',
      'np.where({n}>=1,{n},.5)', 'np.where({n}!=1,{n},.5)',
      'np.where(1<{n},1,{n})', 'np.clip({n}, a_min=0.5, a_max=0.9)',
      'np.clip({n},a_min=.5,a_max={n}*2)', 'np.round({n}, decimals=1)',
      'np.round({n}, decimals = 1)', 'np.array([{n}, 1])[0]',
      'np.array([1,{n}])[1]', 'np.sum([{n}, {n}, 2])', 'np.pi*{n}', '{n}*np.pi',
      '{n}-np.e', '2*np.pi/{n}', 'abs({n})', 'max({n}, 2)', 'min({n},.2)',
      'round({n},1)', 'pow({n},2)', 'sum([{n},{n}])', 'pd.isna({n})',
      'np.float64({n})', 'np.power({n}, 2) - 3e0', '{n}**2', '{n}**-1',
      '2**{n}', '{n}%2', '{n}//2', '1e3*{n}', '1E3-{n}', '1e-3-{n}',
      '{n}-1e-3', '{n}*1e+3', '-1e2*{n}', '({n}-1e1)/(1e2)', '{n}\t+ 1',
      'np.array([{n},{n}, 3])[1:2]', '(({n} + 1) * ({n} - 1)) / (3 - {n})',
      '({n} > 0) * 2', '(1 < {n}) * {n}', 'np.sqrt(np.abs({n}))',
      'np.maximum(np.minimum({n},1),np.minimum(2,{n}))',
      'np.logical_and({n}>0,{n}<2)', '({n}>0) & ({n}<2)', '({n}>0)|({n}<2)',
      'np.linalg.norm([{n},1])', '{n}+{n}-{n}']
TWO = ['np.maximum({n}, {m})', 'np.maximum({n},{m})', 'np.where({n}>{m},{n},1)',
       'np.where({n} <= {m}, 1, {m})', '({n}+1)*({m}-2)', '{n}-{m}-{n}',
       'np.clip(1, a_min={n}, a_max={n}+{m})', 'np.array([{n},{m}])[1]',
       '{n}*1e-3+{m}', '1e2*{n}/{m}', '{n} *{m}', '({n}>0)&({m}>0)',
       'np.exp({n})/np.exp({m})', '{n}**{m}', 'max({n},{m})',
       '-{n}*-{m}', '{n}/(1+np.exp(-{m}))']
FORM3 = ['a + b * c', 'a-b-c', 'np.maximum(a,b)/c', 'np.where(a>b,c,2)',
         'a * co2e ** 2 - x1e5', '(a+1e-3)*(b-c)', 'np.clip(a,a_min=b,a_max=c)',
         'a', 'a*b', 'a*a - a', '3 + 2', '1e3', 'np.pi', 'values + items',
         'copy - re * get', 'a if_b'[:1] + '/b']
BOUNDS = {'quick': '{} names x {} one-name templates; all name pairs x 13 '
                   'operators x 2 spacings and x {} templates; all name/number '
                   'pairs x 13 operators x 2 orders x 2 spacings; 4^k '
                   'supply states x 4 routes x {} value kinds (zeros, '
                   'negatives, integers, arrays, nan) for {} formulas'.format(
                       len(NAMES), len(UN), len(TWO), 11, len(FORM3)),
          'thorough': 'as quick with triples of names x operator pairs and '
                      'templates nested in templates'}


def cases(tier):
    for n in NAMES:
        for t in UN:
            yield {'f': t.format(n=n)}
    for n, m in itertools.product(NAMES, repeat=2):
        for op in BIN:
            yield {'f': n + op + m}
            yield {'f': n + ' ' + op + ' ' + m}
        for t in TWO:
            yield {'f': t.format(n=n, m=m)}
    for n, x in itertools.product(NAMES, NUMS):
        for op in BIN:
            for sp in ('', ' '):
                yield {'f': n + sp + op + sp + x}
                yield {'f': x + sp + op + sp + n}
    for x, y in itertools.product(NUMS, repeat=2):
        for op in BIN:
            yield {'f': x + op + y}
    for f in FORM3:
        vs = sorted(free(f))
        for how in itertools.product('mdrb', repeat=len(vs)):
            for route in ('init', 'set', 'group', 'setall'):
                for extra in (0, 1):
                    for vals in range(len(VALS)):
                        yield {'f': f, 'how': ''.join(how), 'route': route,
                               'extra': extra, 'vals': vals}
    if tier == 'thorough':
        for n, m, k in itertools.product(NAMES, repeat=3):
            for o1, o2 in (('-', '*'), ('<=', '+'), ('/', '%'), ('**', '-')):
                yield {'f': '(' + n + o1 + m + ')' + o2 + k}
            yield {'f': 'np.where({}>{},{},1e-3)'.format(n, m, k)}
        for n in NAMES[:12]:
            for t, u in itertools.product(UN, repeat=2):
                inner = '(' + t.format(n=n).strip() + ')'
                yield {'f': u.format(n=inner)}


def free(f):
    tree = ast.parse(f.strip(), mode='eval')
    called = {x.func for x in ast.walk(tree) if isinstance(x, ast.Call)
              and isinstance(x.func, ast.Name)}
    names = [x for x in ast.walk(tree) if isinstance(x, ast.Name)]
    out = {x.id for x in names if x not in called} - {'np', 'pd'}
    if out & {x.id for x in called}:
        return None         # a name in two roles
    return out


VAL = {n: round(0.37 + 0.13 * i, 3) for i, n in
       enumerate(sorted(set(NAMES + ['b', 'c'])))}


# (default, run-time) values made from the base value of a name
VALS = [(lambda v: v + 0.05, lambda v: v),
        (lambda v: v + 0.05, lambda v: 0.0), (lambda v: 0.0, lambda v: v),
        (lambda v: v, lambda v: 0), (lambda v: 0, lambda v: -v),
        (lambda v: -v, lambda v: 3), (lambda v: 2, lambda v: np.float64(0)),
        (lambda v: v, lambda v: np.array([0.0, v, -v])),
        (lambda v: v, lambda v: np.array([0.0, 0.0, 0.0])),
        (lambda v: np.array([v, 0.0, 1.0]), lambda v: 0.0),
        (lambda v: 1.0, lambda v: float('nan'))]


def same(got, want):
    if np.ndim(want) > 0:
        return close(got, want)
    return np.ndim(got) == 0 and scalar_close(got, want)


def ref(f, env):
    try:
        return eval(f.strip(), {'np': np, 'pd': pd}, env)
    except Exception as e:
        return e


def run(case, ctx):
    f = case['f']
    names = free(f)
    if names is None:
        ctx.outcome('not in the family')
        return
    names = sorted(names)
    ctx.state(case)
    if 'how' not in case:
        eq = Equation(f)
        ctx.op()
        if list(eq.variables) != names:
            fail('{!r}: variables {} expected {}'.format(f, eq.variables,
                                                         names))
        for scale, shift in ((1, 0), (-1, 0), (0, 0), (1, 2)):
            env = {n: VAL[n] * scale + shift for n in names}
            want = ref(f, dict(env))
            st, got = ctx.call(eq.evaluate, **env)
            if isinstance(want, Exception):
                if not (st == 'err' and isinstance(got, RuntimeError)):
                    fail('{!r} with {}: expected RuntimeError, got {!r}'
                         .format(f, env, got))
                ctx.outcome('error')
            elif st == 'err' or not same(got, want):
                fail('{!r} with {} gives {!r}, expected {!r}'.format(
                    f, env, got, want))
            else:
                ctx.outcome('equal')
            if not names:
                break
        for miss in names:
            part = {k: v for k, v in env.items() if k != miss}
            st, got = ctx.call(eq.eval, **part)
            if not (st == 'err' and isinstance(got, RuntimeError)):
                fail('{!r} without {} gives {!r}'.format(f, miss, got))
        return
    dv, rv = VALS[case.get('vals', 0)]
    dflt = {n: dv(VAL[n]) for n, h in zip(names, case['how']) if h in 'db'}
    rt = {n: rv(VAL[n]) for n, h in zip(names, case['how']) if h in 'rb'}
    d = dict(dflt)
    if case['extra']:
        d['unused'] = 3.0
    route = case['route']
    if route == 'init':
        eq = Equation(f, default_variables=dict(d))
    elif route == 'set':
        eq = Equation(f, name='nm')
        for k, v in d.items():
            eq.set_default_variables({k: -1.0})
            eq.set_default_variables({k: v})
    elif route == 'group':
        g = EquationGroup({'q1': f, 'q2': 'zz + 1'})
        g.set_default_variables(d)
        eq = g['q1']
    else:
        eq = Equation(f, default_variables={k: 9.0 for k in d})
        eq.set_default_variables(None)
        eq.set_default_variables(d)
    ctx.op(2)
    env = dict(dflt)
    env.update(rt)
    kw = dict(rt)
    if case['extra']:
        kw.update(zzz=1.0, other=np.ones(2), np=2.0, pd=3.0, max=4.0)
        kw.update(logger=5.0, kwargs=6.0, out=8.0)
    if list(eq.variables) != names:
        fail('{!r}: variables {} expected {}'.format(f, eq.variables, names))
    for _ in range(2):
        st, got = ctx.call(eq.evaluate, **kw)
        if 'm' in case['how']:
            if not (st == 'err' and isinstance(got, RuntimeError)):
                fail('{} with missing variables gives {!r}'.format(case, got))
            ctx.outcome('missing')
        else:
            want = ref(f, dict(env))
            if isinstance(want, Exception):
                if not (st == 'err' and isinstance(got, RuntimeError)):
                    fail('{} gives {!r}, expected RuntimeError'.format(
                        case, got))
            elif st == 'err' or not same(got, want):
                fail('{} gives {!r}, expected {!r}'.format(case, got, want))
            ctx.outcome('equal')
    now = dict(eq.default_variables)
    if set(now) != set(d) or any(not np.array_equal(now[k], d[k]) for k in d):
        fail('{}: defaults changed to {}'.format(case, eq.default_variables))
