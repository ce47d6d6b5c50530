"""Every pair of small groups and of small directories with every overlap of
keys (equation / sub group or folder / variables), defaults and addend form
(object, file or folder path, dictionary), and chains of three merges: keys,
formulas, values and defaults of the result must be those of a right-biased
union, and neither addend may change."""
import copy
import itertools
import os
from mc.common import *

# content of one group; formulas tell left from right by their constants
ENV = {'x': 1.25}
GKEYS = ['a', 'b', 's', 'p_3MW']
BOUNDS = {'quick': 'all pairs of groups over 4 keys (absent / equation / sub '
                   'group) x defaults (4 x 4) x 3 addend forms; all pairs of '
                   'directories over 3 names (absent / file / folder / folder '
                   'with variables) x variables (4 x 4) x 2 forms; chains of '
                   '3; variable groups',
          'thorough': 'all defaults for every pair'}
CASE_LIMIT = 20


def gsets():
    opts = [('', 'e'), ('', 'e'), ('', 'e', 'g'), ('', 'e')]
    return [s for s in itertools.product(*opts) if any(s)]


DEFS = [{}, {'p': 2.0}, {'q': 3.0}, {'p': 4.0, 'q': 5.0}]
DSETS = list(itertools.product(('', 'f', 'd', 'v'), ('', 'f', 'd', 'v'),
                               ('', 'f')))


def cases(tier):
    deep = tier == 'thorough'
    for n, (l, r) in enumerate(itertools.product(gsets(), repeat=2)):
        for i, (dl, dr) in enumerate(itertools.product(range(4), repeat=2)):
            if deep or (i + n) % 2 == 0:
                for form in ('obj', 'dict', 'file'):
                    yield {'t': 'g', 'l': list(l), 'r': list(r), 'dl': dl,
                           'dr': dr, 'form': form}
    for n, (l, r) in enumerate(itertools.product(DSETS, repeat=2)):
        if not any(l) or not any(r):
            continue
        for i, (dl, dr) in enumerate(itertools.product(range(4), repeat=2)):
            if deep or (i + n) % 4 == 0:
                for form in ('obj', 'path'):
                    yield {'t': 'd', 'l': list(l), 'r': list(r), 'dl': dl,
                           'dr': dr, 'form': form}
    for s in itertools.product(range(0, len(gsets()), 4), repeat=3):
        for d in ((0, 1, 3), (3, 0, 2), (1, 1, 1), (3, 3, 3)):
            yield {'t': 'g3', 's': list(s), 'd': list(d)}
    for l, r in itertools.product(range(4), repeat=2):
        for form in ('obj', 'dict', 'file'):
            yield {'t': 'v', 'l': l, 'r': r, 'form': form}


def group(spec, tag):
    """dict of formulas; tag makes every formula its own"""
    out = {}
    for k, kind in zip(GKEYS, spec):
        if kind == 'e':
            out[k] = 'x * {} + p'.format(tag + GKEYS.index(k)) if k != 'b' \
                else 'q - {}'.format(tag)
        elif kind == 'g':
            out[k] = {'t': 'p * {}'.format(tag),
                      'o{}'.format(tag): 'x - {}'.format(tag),
                      'u': {'v': 'q + {}'.format(tag),
                            'w{}'.format(tag): 'p'}}
    return out


def flat(spec, defaults):
    """dict of formulas -> {path: [formula, defaults]}"""
    out = {}
    for k, v in spec.items():
        if isinstance(v, dict):
            for kk, vv in flat(v, defaults).items():
                out[k + '::' + kk] = vv
        else:
            out[k] = [v, dict(defaults)]
    return out


def look(obj):
    """real object -> {path: [formula, defaults]} through the public API"""
    out = {}
    for k, v in obj.items():
        if isinstance(v, Equation):
            out[k] = [v.full, dict(v.default_variables)]
        elif isinstance(v, (EquationGroup, EquationDirectory)):
            for kk, vv in look(v).items():
                out[k + '::' + kk] = vv
    return out


def warm(obj):
    """use an object in every way before it is combined"""
    look(obj)
    obj.all_equations
    str(obj)
    obj.head(), obj.tail()
    obj.get('nothing', 0)
    for k in list(obj.keys()):
        obj[k]
        for kk in ('h::a', 'a', 't', 'u::v'):
            obj.get(k + '::' + kk, 0)
    for r in ('p_5MW', 'p_3MW * 2', 'a + b', 'm::a + n::h::b', 'n::h::a * 2'):
        obj.get(r, 0)


def compare(case, what, obj, want, ctx):
    got = look(obj)
    ids = sorted(id(e) for e in obj.all_equations)
    if ids != sorted(id(obj[k]) for k in want):
        fail('{}: {} lists the equations {}, expected those of {}'.format(
            case, what, obj.all_equations, sorted(want)))
    if set(got) != set(want):
        fail('{}: {} has entries {}, expected {}'.format(
            case, what, sorted(got), sorted(want)))
    for k in want:
        if got[k][1] != want[k][1]:
            fail('{}: defaults of {} in {} are {}, expected {}'.format(
                case, k, what, got[k][1], want[k][1]))
        f = str(want[k][0])
        eq = obj[k]
        env = {**want[k][1], **ENV}
        names = {n for n in 'pqx' if n in f}
        ctx.op()
        if names <= set(env):
            st, v = ctx.call(eq.eval, **ENV)
            ref = eval(f, {}, env)
            if st == 'err' or not scalar_close(v, ref):
                fail('{}: {} in {} gives {!r}, expected {!r}'.format(
                    case, k, what, v, ref))
        else:
            st, v = ctx.call(eq.eval, **ENV)
            if st != 'err':
                fail('{}: {} in {} gives {!r} without a default'.format(
                    case, k, what, v))
        full = {**ENV, 'p': 0.5, 'q': 0.75}
        st, v = ctx.call(eq.eval, **full)
        if st == 'err' or not scalar_close(v, eval(f, {}, full)):
            fail('{}: {} in {} gives {!r} at run time'.format(case, k, what,
                                                              v))


def merge(wl, wr, dr, keys_r):
    """flat dictionaries; top level keys of the right replace the left's"""
    out = {k: [f, {**d, **dr}] for k, (f, d) in wl.items()
           if k.split('::')[0] not in keys_r}
    out.update({k: [f, {**d, **dr}] for k, (f, d) in wr.items()})
    return out


def run(case, ctx):
    ctx.state(case)
    t = case['t']
    if t == 'g':
        return run_group(case, ctx)
    if t == 'd':
        return run_dir(case, ctx)
    if t == 'v':
        l, r = DEFS[case['l']], dict(DEFS[case['r']])
        a = VariableGroup(dict(l))
        form = dict(r)
        if case['form'] == 'obj':
            form = VariableGroup(form)
        elif case['form'] == 'file':
            p = os.path.join(ctx.fresh_dir(), 'variables.json')
            write_tree(os.path.dirname(p), {'variables.json': ('json', r)})
            form = p
        st, o = ctx.call(lambda: a + form)
        if st == 'err':
            fail('{}: {!r}'.format(case, o))
        if dict(o.items()) != {**l, **r} or dict(a.items()) != l:
            fail('{}: {}'.format(case, dict(o.items())))
        if case['form'] == 'obj' and dict(form.items()) != r:
            fail('{}: right changed'.format(case))
        ctx.outcome('variables')
        return
    specs = [gsets()[i] for i in case['s']]
    defs = [DEFS[i] for i in case['d']]
    objs, flats, keys = [], [], []
    for i, (s, d) in enumerate(zip(specs, defs)):
        g = group(s, 10 * (i + 1))
        o = EquationGroup(g)
        o.set_default_variables(dict(d))
        objs.append(o)
        flats.append(flat(g, d))
        keys.append(set(g))
    a, b, c = objs
    if sum(case['d']) % 2 == 0:
        warm(a)
        warm(b)
    m_ab = merge(flats[0], flats[1], defs[1], keys[1])
    want = merge(m_ab, flats[2], defs[2], keys[2])
    compare(case, '(a + b) + c', (a + b) + c, want, ctx)
    m_bc = merge(flats[1], flats[2], defs[2], keys[2])
    d_bc = {**defs[1], **defs[2]}
    want = merge(flats[0], m_bc, d_bc, keys[1] | keys[2])
    compare(case, 'a + (b + c)', a + (b + c), want, ctx)
    for i, o in enumerate(objs):
        compare(case, 'addend %d' % i, o, flats[i], ctx)
    ctx.outcome('chain')


def run_group(case, ctx):
    gl, gr = group(case['l'], 10), group(case['r'], 20)
    dl, dr = dict(DEFS[case['dl']]), dict(DEFS[case['dr']])
    a, b = EquationGroup(copy.deepcopy(gl)), EquationGroup(copy.deepcopy(gr))
    a.set_default_variables(dict(dl))
    b.set_default_variables(dict(dr))
    wl, wr = flat(gl, dl), flat(gr, dr)
    if (case['dl'] + case['dr']) % 2 == 0:
        warm(a)
        warm(b)
    arg = b
    if case['form'] == 'dict':
        arg = copy.deepcopy(gr)
    elif case['form'] == 'file':
        d = ctx.fresh_dir()
        write_tree(d, {'r.json': ('json', gr)})
        arg = os.path.join(d, 'r.json')
    if case['form'] != 'obj':
        dr, wr = {}, flat(gr, {})
    st, o = ctx.call(lambda: a + arg)
    if st == 'err':
        fail('{}: {!r}'.format(case, o))
    want = merge(wl, wr, dr, set(gr))
    compare(case, 'sum', o, want, ctx)
    if dict(o.default_variables) != {**dl, **dr}:
        fail('{}: defaults of the sum are {}'.format(case,
                                                     o.default_variables))
    if set(o.keys()) != set(gl) | set(gr):
        fail('{}: keys {}'.format(case, list(o.keys())))
    full = {**ENV, 'p': 0.5, 'q': 0.75}
    for k1, k2 in (('a', 'b'), ('p_3MW', 'a'), ('s::t', 'a'),
                   ('s::t', 's::u::v')):
        st, v = ctx.call(lambda: o['{} - {} * 2'.format(k1, k2)].eval(**full))
        if k1 in want and k2 in want:
            ref = eval(want[k1][0], {}, full) - 2 * eval(want[k2][0], {}, full)
            if st == 'err' or not scalar_close(v, ref):
                fail('{}: {} - {} * 2 in the sum gives {!r}, expected {!r}'
                     .format(case, k1, k2, v, ref))
        elif st == 'ok':
            fail('{}: {} - {} * 2 in the sum gives {!r}'.format(
                case, k1, k2, v))
    compare(case, 'left', a, wl, ctx)
    compare(case, 'right', b, flat(gr, DEFS[case['dr']]), ctx)
    if case['form'] == 'dict' and arg != gr:
        fail('{}: dictionary changed'.format(case))
    # later updates of the sum stay there, too
    o.set_default_variables({'p': 77.0})
    compare(case, 'left', a, wl, ctx)
    compare(case, 'right', b, flat(gr, DEFS[case['dr']]), ctx)
    ctx.outcome('group')


DN = ['m', 'n', 'o']


def dir_tree(spec, defs, tag):
    """-> tree on disk, model {name: ('f', flat) | ('d', flat, own vars)}"""
    tree, model = {}, {}
    for i, (k, kind) in enumerate(zip(DN, spec)):
        g = {'a': 'x * {} + p'.format(tag + i), 'b': 'q + {}'.format(tag),
             'c{}'.format(tag): 'x - {}'.format(tag)}
        if kind == 'f':
            tree[k + '.json'] = ('json', g)
            model[k] = ['f', g, {}]
        elif kind in ('d', 'v'):
            tree[k] = {'h.json': ('json', g),
                       'k{}.json'.format(tag): ('json', {'one': 'x + q'})}
            own = {}
            if kind == 'v':
                own = {'p': tag + 0.5}
                tree[k]['variables.json'] = ('json', own)
            model[k] = ['d', g, own, 'k{}'.format(tag)]
    if defs:
        tree['variables.json'] = ('json', defs)
    return tree, model


def defaults(model, cur, push):
    """apply a push of default values to every entry"""
    for k, (kind, g, own, *more) in model.items():
        cur.setdefault(k, {}).update({**push, **own})
    return cur


def flat_dir(model, cur):
    out = {}
    for k, (kind, g, own, *more) in model.items():
        for m in more:
            out['{}::{}::one'.format(k, m)] = ['x + q', dict(cur[k])]
        pre = k + '::' if kind == 'f' else k + '::h::'
        for kk, f in g.items():
            out[pre + kk] = [f, dict(cur[k])]
    return out


def run_dir(case, ctx):
    root = ctx.fresh_dir()
    dl, dr = DEFS[case['dl']], DEFS[case['dr']]
    tl, ml = dir_tree(case['l'], dl, 10)
    tr, mr = dir_tree(case['r'], dr, 20)
    write_tree(root, {'l': tl, 'r': tr})
    a = EquationDirectory(os.path.join(root, 'l'))
    b = EquationDirectory(os.path.join(root, 'r'))
    cl, cr = defaults(ml, {}, dl), defaults(mr, {}, dr)
    if case['dl'] >= case['dr']:
        warm(a)
        warm(b)
    st, o = ctx.call(lambda: a + (b if case['form'] == 'obj' else
                                  os.path.join(root, 'r')))
    if st == 'err':
        fail('{}: {!r}'.format(case, o))
    model = {**ml, **mr}
    cur = {k: dict(cr[k] if k in mr else cl[k]) for k in model}
    # the variables of the right one, and the variables file now at the top
    push = dict(dr)
    push.update(dr or dl)
    defaults(model, cur, push)
    want = flat_dir(model, cur)
    compare(case, 'sum', o, want, ctx)
    if set(o.keys()) != set(model) | ({'variables'} if dl or dr else set()):
        fail('{}: keys {}'.format(case, list(o.keys())))
    if (dl or dr) and dict(o['variables'].items()) != (dr or dl):
        fail('{}: variables {}'.format(case, o['variables']))
    compare(case, 'left', a, flat_dir(ml, cl), ctx)
    compare(case, 'right', b, flat_dir(mr, cr), ctx)
    o.set_default_variables({'p': 77.0}, force_update=True)
    compare(case, 'left', a, flat_dir(ml, cl), ctx)
    compare(case, 'right', b, flat_dir(mr, cr), ctx)
    ctx.outcome('directory')
