"""Every key expression of the enumerated grammar is retrieved from a group, a
nested group, a directory, a sub-directory and a variables group; the value of
the returned equation must be Python's value of the expression over the values
of the named equations. Keys outside of the grammar must raise an error or
give the right value."""
import itertools
import os
import re
from mc.common import *

A = dict(a1=1.37, a2=0.83, a3=2.11, a4=0.59, a5=1.71, a6=0.91)
a1, a2, a3, a4, a5, a6 = (A['a%d' % i] for i in range(1, 7))
G1 = {'e1': 'a1 + 0.25', 'e2': 'a2 * 1.3', 'e10': 'a5 - a4', 'k': 1.45,
      'kneg': -0.6, 'x': 'a6', 'xx': 'a5 / a6', 'e': '0.3 + a3',
      'Cost_a': 'np.exp(a4) - 1', 'workspace_1': 'a2 - 3.2',
      'workspace_2': 'a3 + 7',
      'sub': {'e3': 'a1 - a2', 'e1': 'a3 / a2',
              'deep': {'e5': 'a4 - a6', 'e1': 'a6 * a6'}}}
VAL = {'e1': a1 + .25, 'e2': a2 * 1.3, 'e10': a5 - a4, 'k': 1.45,
       'kneg': -.6, 'x': a6, 'xx': a5 / a6, 'e': .3 + a3,
       'Cost_a': np.exp(a4) - 1,
       'workspace_1': a2 - 3.2, 'workspace_2': a3 + 7, 'sub::e3': a1 - a2, 'sub::e1': a3 / a2,
       'sub::deep::e5': a4 - a6, 'sub::deep::e1': a6 * a6}
VARS = {'v1': 1.9, 'vneg': -0.6, 'v10': 0.35, 'vi': 3}
LIB = {'g1.json': ('json', G1), 'variables.json': ('json', VARS),
       'd1': {'g2.json': ('json', {'e4': 'a2 - 0.4 * w', 'e7': 'a1 / 1.9'}),
              'variables.json': ('json', {'w': .75, 'v1': 2.6}),
              'd2': {'g1.json': ('json', {'e9': 'a3 - a1'})}}}
# names with blanks and dots inside
BLANK = {'my eq': 'a1 + 0.25', 'my  eq': 'a2 - 2', 'b c': {'x y': 'a3 * 2',
                                                        'f.o': 'a4 - 3'},
         'eq': 'a5', 'v1.5': 'a6 / 3'}
NUM = {'2': 2, '0.45': .45, '.5': .5, '10': 10, '3.': 3.}


def table():
    t = {'group': dict(VAL), 'nested': {}, 'deep': {}, 'vars': dict(VARS),
         'dir': {'g1::' + k: v for k, v in VAL.items()}}
    t['nested'] = {k[5:]: v for k, v in VAL.items() if k.startswith('sub::')}
    t['deep'] = {k[11:]: v for k, v in VAL.items()
                 if k.startswith('sub::deep::')}
    t['dir'].update({'variables::' + k: v for k, v in VARS.items()})
    t['subdir'] = {'g2::e4': a2 - .4 * .75, 'g2::e7': a1 / 1.9,
                   'variables::w': .75, 'variables::v1': 2.6,
                   'd2::g1::e9': a3 - a1}
    t['dir'].update({'d1::' + k: v for k, v in t['subdir'].items()})
    t['dir']['g1.json::e1'] = VAL['e1']
    t['dir']['d1::g2.yaml::e4'] = t['subdir']['g2::e4']
    t['fgroup'] = dict(VAL)
    t['blank'] = {'my eq': a1 + .25, 'my  eq': a2 - 2, 'b c::x y': a3 * 2,
                  'b c::f.o': a4 - 3, 'eq': a5, 'v1.5': a6 / 3}
    for k in t:
        t[k].update(NUM)
    return t


TAB = table()
SIX = {'group': ['e1', 'e2', 'sub::e3', 'xx', 'k', 'e'],
       'dir': ['g1::e1', 'd1::g2::e4', 'variables::v1', 'g1::sub::deep::e5',
               'g1::x', 'd1::d2::g1::e9']}
BOUNDS = {'quick': 'group and directory: flat keys of 1-4 operators x 4 '
                   'spellings (3 for 4 operators: 1), trees of <= 4 leaves x '
                   '4 paren styles; all pairs of operands of 8 containers x 5 '
                   'operators x 3 contexts; ladders to 14 '
                   'and of 20, 30, 45, 60; '
                   'keys outside of the grammar',
          'thorough': 'as quick with 5 operators, trees of 5 leaves, operand '
                      'triples, ladders to 40'}


def cases(tier):
    big = tier == 'thorough'
    spell = [('', '**'), (' ', '**'), (' ', '^'), ('  ', '^'), ('\n', '**'),
             ('\t', '^')]
    for box in ('group', 'dir'):
        names = SIX[box]
        for n in range(1, 6 if big else 5):
            for ops in itertools.product(OPS, repeat=n):
                for sp, pw in (spell if n < 4 else spell[1:2]):
                    s = names[0]
                    for i, o in enumerate(ops):
                        s += sp + (pw if o == '**' else o) + sp + names[i + 1]
                    yield {'b': box, 'e': s}
        for n in range(2, 6 if big else 5):
            for tree in shapes(n):
                for ops in itertools.product(OPS, repeat=n - 1):
                    for style, sp in (('min', ' '), ('full', ''),
                                      ('red', ' '), ('dbl', '')):
                        if n == 5 and style != 'full':
                            continue
                        if n == 4 and style == 'dbl':
                            continue
                        yield {'b': box, 'e': render(tree, names, ops, style,
                                                     sp)}
        for n in list(range(1, (40 if big else 14) + 1)) + [20, 30, 45, 60]:
            for op in OPS[:4]:
                v = [names[i % 6] for i in range(n + 1)]
                yield {'b': box, 'e': (' %s ' % op).join(v)}
                s = v[0]
                for i in range(n):
                    s = '(%s %s %s)' % ((s, op, v[i]) if i % 2
                                        else (v[i], op, s))
                yield {'b': box, 'e': s}
                yield {'b': box, 'e': '2 * ' + s + ' - ' + s}
            yield {'b': box, 'e': '(' * n + v[0] + ' - ' + v[1] + ')' * n
                   + ' * 2'}
            yield {'b': box, 'e': '(' * n + v[0] + ')' * n}
            yield {'b': box, 'e': v[0] + ' - ' + ' - '.join(
                '(%s * %d)' % (names[i % 6], i + 1) for i in range(n))}
            yield {'b': box, 'e': ' / '.join(
                '(%s + %d) * (%s + 2.5)' % (names[i % 6], i + 1, names[0])
                for i in range(min(n, 12)))}
    for box, tab in TAB.items():
        for k in tab:
            for t in ('{0}', '({0})', '(({0}))', '( {0} )', '1 * {0}',
                      '{0}*1', '{0}**2', '({0})**2', '2 ** {0}',
                      '({0}) - ({0})', '({0}) * ({0})'):
                yield {'b': box, 'e': t.format(k)}
        for k1, k2 in itertools.product(tab, repeat=2):
            if box == 'fgroup' and '::' not in k1:
                continue
            for op in OPS:
                yield {'b': box, 'e': '{} {} {}'.format(k1, op, k2)}
                yield {'b': box, 'e': '10 - ({}{}{})*2'.format(k1, op, k2)}
                yield {'b': box, 'e': '({0} - 1) {1} {2}'.format(k1, op, k2)}
                if big:
                    for k3 in tab:
                        yield {'b': box,
                               'e': '{} {} {} - {}'.format(k1, op, k2, k3)}
                        yield {'b': box,
                               'e': '{} {} {} / {}'.format(k1, op, k2, k3)}
    # outside of the grammar: an error or the right value
    for box in ('group', 'dir'):
        n = SIX[box]
        for ops in itertools.product(OPS, repeat=2):
            for mask in itertools.product((0, 1), repeat=3):
                if any(mask):
                    s = '{3}{0} {6} {4}{1} {7} {5}{2}'.format(
                        n[0], n[1], n[2], *['-' * m for m in mask], *ops)
                    yield {'b': box, 'e': s, 'odd': 1}
        for op in OPS:
            for t in ('1e-1 {o} {a}', '{a} {o} 1e-1', '{a} {o} 1e+1',
                      '{a} {o} 2e0', '2.5E-1{o}{a}', '{a} {o}', '{o} {a}',
                      '{a} {o} {o} {b}', '{a} {o} nope', 'nope {o} {a}',
                      '({a} {o} {b}', '{a} {o} {b})', '({a}) ({b}) {o} {a}',
                      '{a} {o} ()', '{a} {o} ( )', '{a}{o}[{b}]', '{a} {b}',
                      '({a}) {b}', '{a}({b}) {o} 2', '{a} {o} np.exp({b})',
                      '{a} {o} {b} % 2', '{a} {o} 3x', '+{a} {o} {b}',
                      '-({a} {o} {b})', '{a} {o} -({b})', '{a} {o} {b} {a}'):
                yield {'b': box, 'e': t.format(o=op, a=n[0], b=n[1]),
                       'odd': 1}


def setup(ctx):
    ctx.lib = os.path.join(ctx.scratch, 'lib')
    os.mkdir(ctx.lib)
    write_tree(ctx.lib, LIB)
    g = EquationGroup(G1)
    d = EquationDirectory(ctx.lib)
    ctx.box = {'group': g, 'nested': g['sub'], 'deep': g['sub::deep'],
               'dir': d, 'subdir': d['d1'], 'vars': d['variables'],
               'fgroup': d['g1'], 'blank': EquationGroup(BLANK)}


def value(eq):
    if isinstance(eq, Equation):
        return eq.eval(**A)
    return eq


def run(case, ctx):
    if not hasattr(ctx, 'box'):
        setup(ctx)
    box, e = case['b'], case['e']
    tab = TAB[box]
    env, ref = {'np': np}, e
    if box == 'blank':
        for i, k in enumerate(sorted(set(tab) - set(NUM), key=len)[::-1]):
            ref = ref.replace(k, 'Q' + 'abcdef'[i])
            env['Q' + 'abcdef'[i]] = tab[k]

    def sub(m):
        t = m.group(0)
        if t in tab and t not in NUM:
            i = 'K%d' % list(tab).index(t)
            env[i] = tab[t]
            return i
        return t
    # paths and names become python names
    ref = re.sub(r'[A-Za-z_][\w.]*(::[\w.]+)*', sub, ref)
    try:
        want = eval('(' + py(ref).strip() + ')', env)
    except Exception as ex:
        if not case.get('odd'):
            raise
        want = ex
    ctx.state((box, e))
    st, eq = ctx.call(ctx.box[box].__getitem__, e)
    got = eq
    if st == 'ok':
        st, got = ctx.call(value, eq)
    if case.get('odd'):
        if st == 'ok' and (isinstance(want, Exception)
                           or not scalar_close(got, want)):
            fail('key {!r} of {} gives {!r}, not {!r}'.format(
                e, box, got, want))
        ctx.outcome('refused' if st == 'err' else 'equal')
        return
    if st == 'err':
        fail('key {!r} of {} failed: {!r}'.format(e, box, got))
    if not scalar_close(got, want):
        fail('key {!r} of {} gives {!r}, expected {!r}'.format(
            e, box, got, want))
    ctx.outcome('equal')
