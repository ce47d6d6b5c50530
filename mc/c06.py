"""Every reference graph over the equations of a group x formula style x name
set x definition order x nesting / file form: each equation must have the value
of the recursive evaluation and need exactly the remaining variables; graphs
with a cycle must be refused with ValueError."""
import itertools
import os
from mc.common import *

NAMESETS = [['a', 'b', 'c', 'd'], ['array', 'array_cable', 'arr', 'cable'],
            ['cost', 'my_cost', 'cost2', 'x_cost_y'], ['x', 'xx', 'xxx', 'x_x'],
            ['e', 'e5', 'x1e5', 'E'], ['exp', 'p', 'np_exp', 'maximum'],
            ['a_1', 'a_11', 'a', '_a'], ['u', 'u1', 'u10', 'nu1'],
            ['A', 'a', 'aA', 'Aa'], ['values', 'items', 'copy', 'get'],
            ['pi', 'T', 'a_min', 'a_max'], ['z9', 'z', 'y2015', 'y_10MW'],
            ['clip', 'abs_x', 'n', 'd1e']]
STYLES = 10


def formula(i, refs, style):
    """text of node i using refs (names); inputs are in_<i>"""
    v = 'in_{}'.format(i)
    r = refs + ['0.7'] * 3
    if not refs:
        leaf = ['{0} - 0.4', '0.8 - {0}', '1.3', '{0}', '-{0}', '2e-1 + {0}',
                '{0}-1e0', -2, '-0.6', (-0.25, 0, 7, '-1.5e-1')[i % 4]][style]
        return leaf.format(v) if isinstance(leaf, str) else leaf
    if style == 7:
        return ' - '.join(x + ' ** 2' for x in refs) + ' * ' + v
    if style == 8:
        return '-' + '**2*'.join(refs) + '**2-' + v
    if style == 9:
        return '0.9**{}'.format(refs[0]) + ''.join(
            '-1.1**({}/9)'.format(x) for x in refs[1:]) + '/' + v
    if style == 0:
        return v + ''.join(' - ' + x for x in refs)
    if style == 1:
        return v + '*' + '/'.join(refs) + ''.join('-' + x for x in refs)
    if style == 2:
        return 'np.exp({} / 9) - {}'.format(r[0], v) + ''.join(
            ' * np.maximum({}, 0.1)'.format(x) for x in refs[1:])
    if style == 3:
        return '1e-1*' + '**2-3*'.join(refs) + '**2'
    if style == 4:
        return refs[0] if len(refs) == 1 else '-' + '-'.join(refs)
    if style == 5:
        return 'np.where({0}>{1},{0},{2})*1e0/({0}+{3})+{2}'.format(
            r[0], v, r[-4] if len(refs) > 1 else v, 9) + ''.join(
                '-' + x for x in refs[1:-1])
    return 'np.clip({0},a_min=-9,a_max=9+np.abs({1}))-np.pi*{1}'.format(
        r[0], r[len(refs) - 1]) + ''.join('-' + x for x in refs[1:-1])


BOUNDS = {'quick': 'all 512 digraphs with loops on 3 nodes x {} styles x {} '
                   'name sets x 2-6 orders; all 4096 loop-free digraphs on 4 '
                   'nodes (acyclic ones x all styles x 3 name sets) x 2 orders; nesting, files, rings to '
                   '60, chains to 80'.format(STYLES, len(NAMESETS)),
          'thorough': 'as quick with 6 orders throughout, 4 nodes x all styles '
                      'x all name sets x 4 orders'}


def graphs(n, loops):
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        g = [[] for _ in range(n)]
        for (i, j), b in zip(pairs, bits):
            if b:
                g[i].append(j)
        yield g


def cases(tier):
    big = tier == 'thorough'
    perms3 = list(itertools.permutations(range(3)))
    for g in graphs(3, True):
        for st in range(STYLES):
            for ns in range(len(NAMESETS)):
                for p in (perms3 if big or not cyclic(g)
                          else perms3[ns % 3::3]):
                    yield {'g': g, 's': st, 'ns': ns, 'p': list(p)}
    perms4 = list(itertools.permutations(range(4)))
    for k, g in enumerate(graphs(4, False)):
        dag = not cyclic(g)
        for st in (range(STYLES) if big or dag else (k % STYLES,)):
            for ns in (range(len(NAMESETS)) if big else
                       (1, 3, 4 + k % 9) if dag else (1,)):
                for p in perms4[k % 6::6 if big else 12]:
                    yield {'g': g, 's': st, 'ns': ns, 'p': list(p)}
    # where the group lives
    for wrap in ('nested1', 'nested3', 'yaml', 'json', 'yml', 'dir', 'sum',
                 'shadow'):
        for k, g in enumerate(graphs(3, True)):
            yield {'g': g, 's': k % STYLES, 'ns': k % len(NAMESETS),
                   'p': [2, 0, 1], 'w': wrap}
    for n in list(range(2, 11)) + [17, 30, 60]:
        for rev in (0, 1):
            for ns in range(2):
                ring = [[(i + 1) % n] for i in range(n)]
                yield {'g': ring, 's': 0, 'ns': ns, 'p': order(n, rev)}
                # ring behind a tail
                yield {'g': ring + [[0]], 's': 0, 'ns': ns,
                       'p': order(n + 1, rev)}
    for n in (5, 10, 20, 40, 80):
        for rev in (0, 1, 2):
            for s in (0, 4):
                yield {'g': [[i + 1] if i + 1 < n else [] for i in range(n)],
                       's': s, 'ns': 0, 'p': order(n, rev)}
    # a variable that is called like a nested group stays a variable
    for f in ('sub + 1', 'sub', 'in_0 - sub * e0', 'np.exp(sub) / e0',
              'sub - subx'):
        for p in itertools.permutations(range(3)):
            yield {'sub': f, 'p': list(p)}
    # references stop at the group boundary
    for f in ('top - 1', 'e0 - top', 'top * inner'):
        for p in itertools.permutations(range(3)):
            yield {'bound': f, 'p': list(p)}


def order(n, rev):
    o = list(range(n))
    return o if rev == 0 else o[::-1] if rev == 1 else o[::2] + o[1::2]


def evaluate(defs, name, env):
    """independent recursive evaluation with python's own parser"""
    class Scope(dict):
        def __missing__(self, k):
            if k in defs:
                return evaluate(defs, k, env)
            if k in env:
                used.add(k)
                return env[k]
            raise KeyError(k)
    return eval(str(defs[name]), {'np': np, 'pd': pd}, Scope())


used = set()


def check_group(ctx, grp, defs, env, prefix='', needs=None):
    for name in defs:
        used.clear()
        want = evaluate(defs, name, env)
        st, eq = ctx.call(grp.__getitem__, prefix + name)
        if st == 'err':
            fail('cannot retrieve {}: {!r} ({})'.format(name, eq, defs))
        need = sorted(used)
        if list(eq.variables) != need:
            fail('{} in {}: variables {} expected {}'.format(
                name, defs, eq.variables, need))
        st, got = ctx.call(eq.eval, **{k: env[k] for k in need})
        if st == 'err':
            fail('{} in {} does not evaluate: {!r}'.format(name, defs, got))
        if not scalar_close(got, want):
            fail('{} in {} gives {!r}, expected {!r}'.format(name, defs, got,
                                                             want))
    ctx.outcome('equal')


def run(case, ctx):
    ctx.state(case)
    env = {'in_%d' % i: 0.51 + 0.117 * (i % 9) for i in range(90)}
    if 'sub' in case:
        env.update(sub=0.77, subx=1.9)
        items = [('sub', {'e1': 'in_1'}), ('y', case['sub']),
                 ('e0', 'in_0 - 2')]
        d = dict(items[i] for i in case['p'])
        st, grp = ctx.call(EquationGroup, d)
        if st == 'err':
            fail('{} refused: {!r}'.format(d, grp))
        defs = {k: v for k, v in items if k != 'sub'}
        check_group(ctx, grp, defs, env)
        return
    if 'bound' in case:
        env.update(top=0.77, inner=1.9, e0=2.3)
        items = [('top', 'in_1 * 2'), ('e0', 'in_2 - 1'),
                 ('sub', {'inner': 'in_0 - 2', 'y': case['bound']})]
        d = dict(items[i] for i in case['p'])
        grp = EquationGroup(d)
        ctx.op()
        check_group(ctx, grp, items[2][1], env, 'sub::')
        check_group(ctx, grp, dict(items[:2]), env)
        return
    g, n = case['g'], len(case['g'])
    names = NAMESETS[case['ns']][:n]
    names += ['%s%d' % (names[0], i) for i in range(n - len(names))]
    text = {names[i]: formula(i, [names[j] for j in g[i]], case['s'])
            for i in range(n)}
    defs = {names[i]: text[names[i]] for i in case['p']}
    cyc = cyclic(g)
    st, grp, prefix = build(ctx, defs, case.get('w'))
    if cyc:
        if st == 'ok':
            fail('circular group accepted: {}'.format(defs))
        # files inside of a directory are reported as RuntimeError
        good = (ValueError, RuntimeError) if case.get('w') == 'dir' \
            else (ValueError,)
        if not isinstance(grp, good):
            fail('circular group {}: {!r}'.format(defs, grp))
        ctx.outcome('cycle refused')
        return
    if st == 'err':
        fail('group refused: {} {!r}'.format(defs, grp))
    if case.get('w') == 'shadow':
        check_group(ctx, grp, {k: '9 - ' + k + '_v' for k in defs},
                    {k + '_v': 0.3 for k in defs})
    check_group(ctx, grp, defs, env, prefix)


def build(ctx, defs, wrap):
    if not wrap:
        return ctx.call(EquationGroup, defs) + ('',)
    if wrap in ('nested1', 'nested3'):
        d, pre = dict(defs), ''
        for i in range(int(wrap[-1])):
            d = {'lev%d' % i: d, 'zz': 'q'}
            pre = 'lev%d::' % i + pre
        return ctx.call(EquationGroup, d) + (pre,)
    if wrap == 'shadow':
        # same names in the outer group
        d = {k: '9 - ' + k + '_v' for k in defs}
        d['lev'] = dict(defs)
        return ctx.call(EquationGroup, d) + ('lev::',)
    if wrap == 'sum':
        st, g = ctx.call(EquationGroup, {'zz': 'q'})
        return ctx.call(lambda: g + dict(defs)) + ('',)
    root = ctx.fresh_dir()
    ext = 'json' if wrap == 'dir' else wrap
    fp = os.path.join(root, 'f.' + ext)
    write_tree(root, {'f.' + ext: ('json' if ext == 'json' else 'yaml', defs)})
    if wrap == 'dir':
        return ctx.call(EquationDirectory, root) + ('f::',)
    return ctx.call(EquationGroup, fp) + ('',)


def cyclic(g):
    state = {}

    def visit(i):
        if state.get(i) == 1:
            return True
        if state.get(i) == 2:
            return False
        state[i] = 1
        r = any(visit(j) for j in g[i])
        state[i] = 2
        return r
    return any(visit(i) for i in range(len(g)))
