"""Every config expression of the enumerated grammar is loaded by NrwalConfig
and evaluated; the value must be Python's value of the same expression over
the operand values."""
import itertools
import math
import re
from mc.common import *

A = dict(a1=1.37, a2=0.83, a3=2.11, a4=0.59, a5=1.71, a6=0.91)
LIB = {'variables.json': ('json', {'v1': 1.9, 'vneg': -0.6}),
       'g1.json': ('json', {'e1': 'a1 + 0.25', 'e2': 'a2 * 1.3',
                            'e6': 'a3 * v1 - a1',
                            'sub': {'e3': 'a1 - a2', 'e7': '1.45'}}),
       'd1': {'g2.json': ('json', {'e4': 'a2 - 0.4 * w'}),
              'variables.json': ('json', {'w': 0.75})}}
CFG = [('c1', 1.37), ('cneg', -0.83), ('csci', 1.2e-1), ('cint', 3),
       ('cstr', '2.2'), ('csum', '1.1 + 0.2'),
       ('G', 'g1'), ('D', 'd1'), ('early', 'a1 + 0.31'), ('alias', 'g1::e2'),
       ('TARGET', None),
       ('late', 'a2 - 1.07'), ('latec', 0.66), ('lateG', 'g1')]
a1, a2, a3, a4, a5, a6 = (A['a%d' % i] for i in range(1, 7))
# operand kinds: text, value
KINDS = {
    'in': ('a1', a1), 'in2': ('a2', a2), 'int': ('2', 2), 'flt': ('0.45', .45),
    'dot': ('.5', .5), 'sci': ('1.5e-1', .15), 'Sci': ('2.5E+0', 2.5),
    'scii': ('3e0', 3.), 'c': ('c1', 1.37), 'cneg': ('cneg', -.83),
    'csci': ('csci', .12), 'cint': ('cint', 3), 'cstr': ('cstr', 2.2),
    'csum': ('csum', 1.3), 'early': ('early', a1 + .31),
    'late': ('late', a2 - 1.07), 'latec': ('latec', .66),
    'alias': ('alias', a2 * 1.3),
    'lib': ('g1::e1', a1 + .25), 'libv': ('g1::e6', a3 * 1.9 - a1),
    'libd': ('d1::g2::e4', a2 - .4 * .75), 'libs': ('g1::sub::e3', a1 - a2),
    'libk': ('g1::sub::e7', 1.45),
    'var': ('variables::v1', 1.9), 'vneg': ('variables::vneg', -.6),
    'vard': ('d1::variables::w', .75),
    'grp': ('G::e1', a1 + .25), 'grps': ('G::sub::e3', a1 - a2),
    'lgrp': ('lateG::e2', a2 * 1.3), 'dir': ('D::g2::e4', a2 - .4 * .75),
    'np': ('np.exp(a3)', np.exp(a3)), 'np2': ('np.maximum(a1, a2)', np.float64(a1)),
    'npc': ('np.minimum(c1, early)', np.float64(min(1.37, a1 + .31))),
    'plit': ('(-1.2)', -1.2), 'pin': ('(a4)', a4), 'plib': ('(g1::e1)', a1 + .25),
    'pi': ('np.pi', math.pi), 'Scim': ('2.5E-1', .25), 'fdot': ('3.', 3.),
    'scid': ('5.e-1', .5), 'dsci': ('.5e1', 5.), 'big': ('12345.6789', 12345.6789),
    'sci2': ('12e-1', 1.2), 'ws': ('workspace_1', .47),
}
CALLS = ['np.exp(a3)', 'np.maximum(a1, a2)', 'np.maximum(a1,a2)',
         'np.maximum(a1 + a2, a3)', 'np.maximum(a1 - a2, 0.3 * a3)',
         'np.sqrt(np.abs(a1 - a2))', 'np.sqrt(np.abs(a2 - a1) + 1)',
         'np.minimum(np.maximum(a1, a2), a3 * 2)',
         'np.where(a1 > a2, a1, a2)', 'np.where(a1 <= a2, a1 * 2, a2 - 1)',
         'np.clip(a1, 0.1, 0.9)', 'np.power(a1, 2)', 'np.exp(-a1)',
         'np.log10(a1 * 10)', 'np.round(a1, 1)', 'np.exp((a1 + a2) / (a3 + 1))',
         'np.maximum(early, late)', 'np.exp(c1 - csum)', 'np.exp(1e-1)',
         'np.maximum((a1), (a2))', 'np.float64(a1)', 'np.pi', 'np.e']
CTX = ['{C}', '{C} + a4', 'a4 + {C}', 'a4 - {C}', 'a4 / {C}', '{C} / a4',
       '{C} ** 2', '2 ** {C}', '-{C}', '-{C} + a4', '({C})', '({C}) * a4',
       '(a4 + {C}) * a5', 'a5 * (a4 + {C})', '(a4 + a5) * {C}',
       '(a4 - a5)/{C}', '{C} * (a4 - a5)', '{C} - {C}', '{C} + {C} * a4',
       'a4 - {C} - a5', 'a4 / {C} / a5', '({C} - a4) ** 2 - {C}',
       '((a4 + {C}))', '2*(1+{C})', '(2 * {C} * a4)',
       '{C} * np.exp(a5)', 'np.exp(a5) - {C}', '(np.exp(a5) - a4) / {C}',
       '{C}*np.minimum(a5, a4)*{C}', '(a5) * ({C} + (a4 - (a5 * {C})))']
BOUNDS = {
    'quick': 'flat strings of 1-3 operators (all 5) x all unary-minus masks x '
             '4 spellings (1-2: also line ends and tabs), 4 operators x masks of weight <= 1; all trees of '
             '<= 4 leaves x 4 paren styles, <= 3 leaves x all negated inner '
             'nodes; all pairs of {} operand kinds x 5 operators x 3 '
             'contexts; {} numpy calls x {} contexts; ladders to 14 and of 20, 30, 45, 60'.format(
                 len(KINDS), len(CALLS), len(CTX)),
    'thorough': 'as quick with 4 operators x all masks x 4 spellings, 5 '
                'operators x masks of weight <= 1, trees of <= 5 leaves, all '
                'triples of operand kinds x 9 operator pairs, ladders to 40'}
ASSUMPTIONS = ['arguments of numpy calls contain no "::" paths',
               'operand values are generic, so that different readings of '
               'an expression give different values']


def cases(tier):
    big = tier == 'thorough'
    names = list(A)
    spell = [('', '**'), (' ', '**'), (' ', '^'), ('  ', '^')]

    def flat(n, maxmask, spells):
        for ops in itertools.product(OPS, repeat=n):
            for mask in itertools.product((0, 1), repeat=n + 1):
                if sum(mask) > maxmask:
                    continue
                for sp, pw in spells:
                    s = ''
                    for i in range(n + 1):
                        if i:
                            o = ops[i - 1] if ops[i - 1] != '**' else pw
                            s += sp + o + sp
                        s += ('-' if mask[i] else '') + names[i]
                    yield {'e': s}
    for n in (1, 2, 3):
        yield from flat(n, 9, spell)
    for n in (1, 2):
        yield from flat(n, 9, [('\n', '**'), ('\t', '^'), (' \r\n ', '**')])
    # blanks on one side only
    for n in (1, 2, 3):
        for ops in itertools.product(OPS, repeat=n):
            for b, a in ((' ', ''), ('', ' '), ('\n  ', ' ')):
                yield {'e': names[0] + ''.join(
                    b + o + a + names[i + 1] for i, o in enumerate(ops))}
                yield {'e': '(' + a + names[0] + b + ')' + ''.join(
                    b + o + a + '(' + a + names[i + 1] + b + ')'
                    for i, o in enumerate(ops))}
    yield from flat(4, 9 if big else 1, spell if big else spell[:1])
    if big:
        yield from flat(5, 1, spell[1:2])

    for n in range(2, 6 if big else 5):
        for tree in shapes(n):
            for ops in itertools.product(OPS, repeat=n - 1):
                for style, sp in (('min', ' '), ('full', ''), ('red', ' '),
                                  ('dbl', '')):
                    if n == 5 and style in ('dbl', 'red'):
                        continue
                    yield {'e': render(tree, names, ops, style, sp)}
                if n <= 3:
                    for r in range(1, n):
                        for neg in itertools.combinations(range(n - 1), r):
                            yield {'e': render(tree, names, ops, 'min', ' ',
                                               neg)}
    # operand kinds
    ks = list(KINDS)
    for k in ks:
        for t in ('{0}', '({0})', '(({0}))', '-{0}', '- {0}', ' {0} ',
                  '-({0})', '( {0} )', '{0}*1', '1*{0}', '-{0}**2',
                  '({0})**2', '{0}**2', '(-{0})**2', '2**-{0}'):
            yield {'e': t.format('<%s>' % k)}
    for k1, k2 in itertools.product(ks, repeat=2):
        for op in OPS:
            yield {'e': '<{}> {} <{}>'.format(k1, op, k2)}
            yield {'e': 'a5 - (<{}>{}<{}>)*2'.format(k1, op, k2)}
            yield {'e': '-<{}> {} -<{}> - a6'.format(k1, op, k2)}
    if big:
        for k1, k2, k3 in itertools.product(ks, repeat=3):
            for o1, o2 in itertools.product(('-', '/', '**'), repeat=2):
                yield {'e': '<{}> {} <{}> {} <{}>'.format(k1, o1, k2, o2, k3)}
    # numpy calls
    for c in CALLS:
        for t in CTX:
            for sp in (0, 1):
                e = t.replace('{C}', c)
                if sp:
                    e = e.replace(' ', '')
                yield {'e': e}
    for c1, c2 in itertools.product(CALLS, repeat=2):
        yield {'e': '{} - {} / (a4 + {})'.format(c1, c2, c1)}
    # ladders
    top = 40 if big else 14
    for n in list(range(1, top + 1)) + [20, 30, 45, 60]:
        for op in OPS:
            if op == '**' and n > 6:
                continue
            vals = ['a%d' % (1 + i % 6) for i in range(n + 1)]
            yield {'e': (' %s ' % op).join(vals)}
            yield {'e': op.join('(%s + %d)' % (v, i + 1)
                                for i, v in enumerate(vals[:8]))} \
                if n <= 8 and op != '**' else {'e': 'a1'}
            s = 'a1'
            for i in range(n):
                s = '(%s %s %s)' % (s, op, vals[i]) if i % 2 else \
                    '(%s %s %s)' % (vals[i], op, s)
            if op != '**':
                yield {'e': s}
                yield {'e': '2 * ' + s + ' - ' + s}
        yield {'e': '(' * n + 'a1 - a2' + ')' * n + ' * a3'}
        yield {'e': '(' * n + 'a1' + ')' * n}
        yield {'e': 'a5 - ' + ' - '.join('(a%d * %d)' % (1 + i % 6, i + 1)
                                         for i in range(n))}
        yield {'e': ' / '.join('(a%d + %d) * (a1 - %d.5)' % (1 + i % 6, i + 1, i)
                               for i in range(min(n, 12)))}
        yield {'e': '-'.join('np.exp(a%d / %d)' % (1 + i % 6, i + 1)
                             for i in range(n))}
        yield {'e': 'a1' + ' - -a2' * n}
        yield {'e': '-(' * n + 'a1 - a2' + ')' * n}
    # more config constants than workspace digits, names contained in names
    for extra in (0, 1, 5, 8, 9, 10, 12, 20):
        for e in ('(a1 - a2) * (a3 - a4) - (a5 / a6) / (a1 + 1)',
                  '(a1 - (a2 - (a3 - (a4 - (a5 - a6)))))',
                  '(k0 - a1) / (a1 - 2)',
                  '(k0 - workspace_%d) / (a1 - workspace_%d)' % (
                      extra + 1, extra + 2)):
            yield {'e': e, 'extra': extra}
    for e in ('x - xx - x1', 'x1/x/xx', '(x + x1) * (x + x1 + xx)',
              '(x1) - (x) * (xx)', 'x*xx - (x*xx1)', 'e5 - 1e5 * e5',
              'e5*1e-5', '1e5/e5 - 1E5', 'npx - np.exp(npx) / pdx',
              '(npx - 1) * pdx', 'e - 2e0 - e', 'E*1E1', '_x - x_ / x__y',
              'x2d - 2*x - x2', 'X - x', 'e1_2 - 1e-1_0' if 0 else 'x-X',
              'max_x - min_x / abs_x', 'values / keys - items',
              'copy * get - pop',
              '(x + 1) * workspace_1', 'workspace_1 - (x + 2) / (xx - 3)',
              '(workspace_2 - (x + 1)) * (workspace_1 / (x1 - 2) - x)',
              'np.exp(x) - workspace_1 * (workspace_3 - 1)',
              '(x - workspace_1) * (xx - workspace_2) - (x1 - workspace_3)', 'a_b - a - b_a', 'T - dtype - shape'):
        yield {'e': e, 'names': 1}


NAMES = {n: round(0.31 + 0.17 * i, 3) for i, n in enumerate(
    ['x', 'xx', 'x1', 'xx1', 'e5', 'npx', 'pdx', 'e', 'E', '_x', 'x_', 'x__y',
     'x2d', 'x2', 'X', 'max_x', 'min_x', 'abs_x', 'values', 'keys',
     'items', 'copy', 'get', 'pop', 'a_b', 'a', 'b_a', 'T', 'dtype',
     'shape', 'workspace_1', 'workspace_2', 'workspace_3'])}


def setup(ctx):
    import os
    ctx.lib = os.path.join(ctx.scratch, 'lib')
    os.mkdir(ctx.lib)
    write_tree(ctx.lib, LIB)


def run(case, ctx):
    e = case['e']
    if not hasattr(ctx, 'lib'):
        setup(ctx)
    env = dict(A)
    env.update(c1=1.37, csum=1.3, early=a1 + .31, late=a2 - 1.07, k0=0.27,
               np=np)
    inputs = dict(A)
    inputs['workspace_1'] = .47
    if case.get('names'):
        env.update(NAMES)
        inputs.update(NAMES)
    ref = e
    text = e
    for k in set(re.findall(r'<(\w+)>', e)):
        t, v = KINDS[k]
        text = text.replace('<%s>' % k, t)
        ref = ref.replace('<%s>' % k, 'K_' + k)
        env['K_' + k] = v
    cfg = {'equation_directory': ctx.lib}
    if 'extra' in case:
        extra = case['extra']
        cfg['k0'] = 0.27
        for i in range(20):
            env['workspace_%d' % (extra + i)] = 0.6 + i / 7
            inputs['workspace_%d' % (extra + i)] = 0.6 + i / 7
        for i in range(case['extra']):
            cfg['k%d' % (i + 1)] = 0.1 * i
    for k, v in CFG:
        cfg[k] = v if k != 'TARGET' else text
        if k == 'TARGET':
            cfg.pop(k)
            cfg['y_out'] = text
    try:
        want = eval('(' + py(ref).strip() + ')', env)
    except OverflowError:
        ctx.outcome('overflow')
        return
    ctx.state(text)
    st, obj = ctx.call(NrwalConfig, cfg)
    if st == 'err':
        fail('{!r} was refused: {!r}'.format(text, obj))
    st, out = ctx.call(obj.evaluate, inputs)
    if st == 'err':
        fail('{!r} does not evaluate: {!r}'.format(text, out))
    got = config_value(obj, out, 'y_out')
    if not scalar_close(got, want):
        fail('{!r} gives {!r}, expected {!r}'.format(text, got, want))
    ctx.outcome('equal')
