"""Every history of up to 3 operations on a world of two equations, two groups,
two directories, two configs built from the same dictionary, a variable table
and the arguments of the caller: each operation may only change the object it
is applied to (or create a new one); a fingerprint of everything else (formulas,
variables, defaults, contents, inputs, results, caller data) must stay as it
was, and rebuilding from the same arguments gives the same object."""
import copy
import itertools
import os
from mc.common import *

BOUNDS = {'quick': 'all histories of length <= 2 and all of length 3 that '
                   'create a derived object or config, update an object and '
                   'update or evaluate one',
          'thorough': 'all histories of length 3 and those of length 4 that '
                      'start with two creating operations'}
CASE_LIMIT = 20
G1 = {'a': 'x * k', 'b': 'a + y', 'p_3MW': 'x + 3 * k', 'p_6MW': 'x + 6',
      's': {'t': 'x - k'}}
G2 = {'b': 'y / k', 'c': 'k ** 2', 's': {'u': 'x + m'}}
CFG = {'c1': 5, 'lib': 'g::a + 1', 'tot': 'lib * 2 - y', 'np1':
       'np.maximum(tot, x)', 'grp': 'g', 'mem': 'grp::s::t / 2',
       'al': 'tot', 'near': 'g::p_4MW', 'interp_extrap_power': True,
       'lib2': 'g::a', 'lib3': 'g::a', 'al2': 'tot', 'al3': 'lib2',
       'grp2': 'g', 'mem2': 'grp::s::t', 'near2': 'g::p_4MW'}
ENV = dict(x=1.5, y=-2.0, k=0.75, m=3.0)


def dirs(root):
    write_tree(root, {
        'f1': {'g.json': ('json', G1), 'variables.json': ('json',
                                                          {'k': 2.0}),
               'sub': {'h.json': ('json', G2)},
               'own': {'h.json': ('json', G2),
                       'variables.json': ('json', {'k': 7.0, 'm': 1.0})}},
        'f2': {'g.json': ('json', G2), 'variables.json': ('json',
                                                          {'k': 3.0}),
               'more': {'h.json': ('json', G1)}}})


def world(ctx):
    w = {}
    w['D'] = {'k': 2.0, 'm': 4.0}
    w['D2'] = {'k': 30.0}
    w['g1'] = copy.deepcopy(G1)
    w['g2'] = copy.deepcopy(G2)
    w['cfg'] = dict(copy.deepcopy(CFG),
                    equation_directory=ctx.cache['f1'])
    w['inp'] = {'x': np.array([1.0, 2.0], dtype='float32'),
                'y': np.array([3, 4]), 'z': 5}
    w['in64'] = {'x': np.array([1.5, 2.5]), 'y': np.array([3, 4], dtype='f4')}
    w['df'] = pd.DataFrame({'x': np.array([1.0, 2.5], dtype='float32'),
                            'y': [3, 4]})
    w['kw'] = {'x': np.array([1, 2, 3]), 'y': np.array([0.5, 1.5, 2.5])}
    w['E1'] = Equation('x * k', name='e1', default_variables=w['D'])
    w['E2'] = Equation('y + k', default_variables={'k': 3.0})
    w['E3'] = Equation('x - y')
    w['G1'] = EquationGroup(w['g1'], interp_extrap_power=True)
    w['G2'] = EquationGroup(w['g2'])
    w['G2'].set_default_variables(w['D2'])
    w['V'] = VariableGroup({'k': 1.0, 'q': 2})
    w['T1'] = EquationDirectory(ctx.cache['f1'], interp_extrap_power=True)
    w['T2'] = EquationDirectory(ctx.cache['f2'])
    w['C1'] = NrwalConfig(w['cfg'])
    w['C2'] = NrwalConfig(w['cfg'])
    return w


# name -> (objects that may change, function of the world)
def _put(name, f):
    def go(w):
        w[name] = f(w)
    return go


def need(name, f):
    def go(w):
        if name in w:
            f(w)
    return go


def handed(w):
    out = w['C1'].outputs
    for k in list(out):
        if isinstance(out[k], np.ndarray):
            out[k] += 100.0


def clear_lists(w):
    """the caller does what it likes with lists it was given"""
    for o in list(w.values()):
        if isinstance(o, Equation):
            o.variables.clear()
        elif isinstance(o, (EquationGroup, EquationDirectory)):
            for e in o.all_equations:
                e.variables.clear()
            o.all_equations.clear()
            if isinstance(o, EquationGroup):
                for x in o.find_nearest_power_eqns('p_4MW'):
                    x.clear()
        elif isinstance(o, NrwalConfig):
            for x in (o.all_variables, o.required_inputs, o.missing_inputs,
                      o.to_be_solved):
                x.clear()
    Equation.parse_variables('x - y').clear()


def entry(name):
    return lambda w: dict(w['C1'].items())[name].set_default_variables(
        w['D2'])


OPS_W = {
    # create
    'R=E1+E2': ('R', _put('R', lambda w: w['E1'] + w['E2'])),
    'R=E2**2': ('R', _put('R', lambda w: w['E2'] ** 2)),
    'R=E3-E1': ('R', _put('R', lambda w: w['E3'] - w['E1'])),
    'R=E1*"y + 1"': ('R', _put('R', lambda w: w['E1'] * 'y + 1')),
    'R=replace': ('R', _put('R', lambda w: w['E1'].replace_equation(
        'x + k * 2'))),
    'R=G1[a+b]': ('R', _put('R', lambda w: w['G1']['a + b'])),
    'R=G1[p_4MW]': ('R', _put('R', lambda w: w['G1']['p_4MW'])),
    'R=T1[math]': ('R', _put('R', lambda w: w['T1'][
        'g::a * own::h::c'])),
    'R=Eq(D)': ('R', _put('R', lambda w: Equation(
        'k + m', default_variables=w['D']))),
    'S=G1+G2': ('S', _put('S', lambda w: w['G1'] + w['G2'])),
    'S=G2+G1': ('S', _put('S', lambda w: w['G2'] + w['G1'])),
    'S=G1+g2': ('S', _put('S', lambda w: w['G1'] + w['g2'])),
    'S=G(g1)': ('S', _put('S', lambda w: EquationGroup(w['g1']))),
    'S=G1+T1g': ('S', _put('S', lambda w: w['G2'] + w['T1']['g'])),
    'S=V+V': ('S', _put('S', lambda w: w['V'] + w['V'])),
    'U=T1+T2': ('U', _put('U', lambda w: w['T1'] + w['T2'])),
    'U=T2+T1': ('U', _put('U', lambda w: w['T2'] + w['T1'])),
    'U=T1+path': ('U', _put('U', lambda w: w['T1'] + os.path.join(
        w['T2']._dir_name, w['T2']._base_name))),
    'C3=config': ('C3', _put('C3', lambda w: NrwalConfig(
        w['cfg'], inputs=w['inp']))),
    # update
    'E1.set(D2)': ('E1', lambda w: w['E1'].set_default_variables(w['D2'])),
    'R.set(D2)': ('R', need('R', lambda w: w['R'].set_default_variables(
        w['D2']))),
    'G1.set(D)': ('G1', lambda w: w['G1'].set_default_variables(w['D'])),
    'S.set(D2)': ('S', need('S', lambda w: w['S'].set_default_variables(
        w['D2']))),
    'T1.set(D)': ('T1', lambda w: w['T1'].set_default_variables(w['D'])),
    'T1.force(D2)': ('T1', lambda w: w['T1'].set_default_variables(
        w['D2'], force_update=True)),
    'U.set(D)': ('U', need('U', lambda w: w['U'].set_default_variables(
        w['D']))),
    'U.force(D2)': ('U', need('U', lambda w: w['U'].set_default_variables(
        w['D2'], force_update=True))),
    'C1.inputs=inp': ('C1', lambda w: setattr(w['C1'], 'inputs', w['inp'])),
    'C1.inputs=in64': ('C1', lambda w: setattr(w['C1'], 'inputs',
                                               w['in64'])),
    'C1.inputs=df': ('C1', lambda w: setattr(w['C1'], 'inputs', w['df'])),
    'C1[lib2].set(D2)': ('C1 C1:lib2', entry('lib2')),
    'C1[al2].set(D2)': ('C1 C1:al2', entry('al2')),
    'C1[al3].set(D2)': ('C1 C1:al3', entry('al3')),
    'C1[tot].set(D2)': ('C1 C1:tot', entry('tot')),
    'C1[mem2].set(D2)': ('C1 C1:mem2', entry('mem2')),
    'C1[grp].set(D2)': ('C1 C1:grp', entry('grp')),
    'C1[grp2].a.set(D2)': ('C1 C1:grp2', lambda w: dict(w['C1'].items())[
        'grp2']['a'].set_default_variables(w['D2'])),
    # evaluate
    'E1.eval': ('', lambda w: w['E1'].eval(**w['kw'])),
    'E2.eval': ('', lambda w: w['E2'].eval(**w['kw'])),
    'R.eval': ('', need('R', lambda w: w['R'].eval(
        k=5, m=2.0, **w['kw']))),
    'G1.b.eval': ('', lambda w: w['G1']['b'].eval(k=5, **w['kw'])),
    'T1.eval': ('', lambda w: [e.eval(**dict(ENV)) for e in
                               w['T1'].all_equations]),
    'C1.evaluate(inp)': ('C1', lambda w: w['C1'].evaluate(w['inp'])),
    'C1.evaluate(df)': ('C1', lambda w: w['C1'].evaluate(w['df'])),
    'C3.evaluate': ('C3', need('C3', lambda w: w['C3'].evaluate(
        {'x': 2, 'y': 3}))),
    'C2.fail': ('C2', lambda w: refuse(lambda: w['C2'].evaluate(
        {'x': np.ones(2), 'y': np.ones(3)}))),
    # the caller goes on using what it owns
    'inp[x]*=2': ('inp', lambda w: w['inp']['x'].__imul__(2)),
    'in64*=2': ('in64', lambda w: [v.__imul__(2) for v in
                                   w['in64'].values()]),
    'df.x*=2': ('df', lambda w: w['df'].__setitem__('x', w['df']['x'] * 2)),
    'df.values': ('df', lambda w: scale(w['df'])),
    'inputs*=3': ('C1', lambda w: [v.__imul__(3) for v in
                                   w['C1'].inputs.values()
                                   if isinstance(v, np.ndarray)]),
    'D[k]=99': ('D', lambda w: w['D'].update(k=99.0)),
    'cfg.clear': ('cfg', lambda w: w['cfg'].update(lib='x', c1=6)),
    'g1.pop': ('g1', lambda w: w['g1'].pop('a', None)),
    'outputs+=100': ('C1', handed),
    'lists.clear': ('', clear_lists),
}


def scale(df):
    for c in df.columns:
        v = df[c].to_numpy()
        if v.flags.writeable:
            v *= 2


def refuse(f):
    try:
        f()
    except RuntimeError:
        return
    raise AssertionError('evaluated with inputs that do not fit')


CREATE = [k for k, v in OPS_W.items() if '=' in k and v[0] in
          ('R', 'S', 'U', 'C3')]


def cases(tier):
    ops = list(OPS_W)
    for n in (1, 2):
        for h in itertools.product(ops, repeat=n):
            yield {'h': list(h)}
    rest = [k for k in ops if k not in CREATE]
    upd = [k for k in rest if OPS_W[k][0] and '.eval' not in k]
    for h in itertools.product(*((ops, ops, ops) if tier == 'thorough' else
                                 (CREATE, upd, rest))):
        yield {'h': list(h)}
    if tier == 'thorough':
        for h in itertools.product(CREATE, CREATE, ops, ops):
            yield {'h': list(h)}


def setup(ctx):
    root = os.path.join(ctx.scratch, 'lib')
    os.mkdir(root)
    dirs(root)
    ctx.cache['f1'] = os.path.join(root, 'f1')
    ctx.cache['f2'] = os.path.join(root, 'f2')
    ctx.cache['fresh'] = {k: fp(v) for k, v in world(ctx).items()}


def fp(o, deep=True):
    """Comparable picture of an object's public state."""
    if isinstance(o, Equation):
        if not deep:
            return ['eq', o.full, fp(o.default_variables),
                    tuple(o.variables)]
        try:
            v = o.eval(**{k: v for k, v in ENV.items() if k in ('x', 'y')})
        except RuntimeError:
            v = 'needs more'
        return ['eq', o.full, tuple(o.variables),
                sorted((k, fp(v)) for k, v in o.default_variables.items()),
                repr(v)]
    if isinstance(o, (EquationGroup, EquationDirectory)):
        return ['grp', [(k, fp(v, deep)) for k, v in o.items()],
                sorted((k, repr(v)) for k, v in o.default_variables.items())]
    if isinstance(o, VariableGroup):
        return ['var', sorted((k, repr(v)) for k, v in o.items())]
    if isinstance(o, NrwalConfig):
        if not deep:
            return ['cfg', [(k, fp(v, deep)) for k, v in o.items()],
                    fp(o.global_variables), fp(o.inputs), fp(o.outputs),
                    list(o.missing_inputs), list(o.all_variables)]
        return ['cfg', [(k, fp(v)) for k, v in o.items()],
                sorted((k, fp(v)) for k, v in o.global_variables.items()),
                sorted((k, fp(v)) for k, v in o.inputs.items()),
                sorted((k, fp(v)) for k, v in o.outputs.items()),
                list(o.required_inputs)]
    if isinstance(o, np.ndarray):
        return ['arr', str(o.dtype), o.shape, o.tobytes()]
    if isinstance(o, pd.DataFrame):
        return ['df', [(c, fp(o[c].values)) for c in o.columns],
                list(o.index)]
    if isinstance(o, dict):
        return ['dict', [(k, fp(v)) for k, v in o.items()]]
    return repr(o)


def picture(w):
    out = {k: fp(v, False) for k, v in w.items()}
    for k, v in w['C1'].items():
        out['C1:' + k] = fp(v, False)
    return out


def run(case, ctx):
    w = world(ctx)
    fresh = ctx.cache['fresh']
    cur = picture(w)
    touched = set()
    for step, name in enumerate(case['h']):
        own, fun = OPS_W[name]
        own = own.split()
        ctx.state(case['h'][:step + 1])
        st, r = ctx.call(fun, w)
        if st == 'err':
            fail('{} step {} {}: {!r}'.format(case, step, name, r))
        touched.update(own)
        new = picture(w)
        for k, v in cur.items():
            if k not in own and new[k] != v:
                fail('{}: {} changed {}: {}'.format(
                    case, name, k, diff(v, new[k])))
        cur = new
    # everything not worked on is in all respects as when first built
    for k, v in fresh.items():
        if k not in touched:
            f = fp(w[k])
            if f != v:
                fail('{}: {} is not as it was built: {}'.format(
                    case, k, diff(v, f)))
    ctx.outcome('isolated')
    # the same construction again gives the same
    if len(case['h']) < 3:
        again = NrwalConfig(dict(copy.deepcopy(CFG),
                                 equation_directory=ctx.cache['f1']))
        if fp(again) != fresh['C1']:
            fail('{}: a config built afterwards differs: {}'.format(
                case, diff(fresh['C1'], fp(again))))
    if fp(Equation('x - y')) != fresh['E3']:
        fail('{}: an equation built afterwards differs'.format(case))


def diff(a, b):
    if type(a) is type(b) and isinstance(a, (list, tuple)) \
            and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return '{} -> {}'.format(a, b)[:600]
