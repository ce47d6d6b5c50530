"""Every forbidden fragment x spelling x position in an expression x entry
point: loading must raise an error and a payload standing in the same
expression must not have run (it would create a file in the scratch
folder)."""
import itertools
import os
from mc.common import *

FRAG = {'import ': ['import os', 'import  x', '(import a)', 'ximport y'],
        'os.': ['os.getpid()', 'os.x', 'xos.path', 'os.environ', 'posos.y'],
        'sys.': ['sys.path', 'xsys.y', 'sys.exit()'],
        '.__': ['a.__class__', 'x.__y', '(a).__doc__', 'a.__add__(b)'],
        '__.': ['a__.b', '__.x', 'x__.y'],
        'eval': ['eval(a)', 'eval', 'my_eval', 'evaluate', 'xevalx * 2'],
        'exec': ['exec(a)', 'exec', 'executor', 'a_exec_b']}
TPL = ['{f}', ' {f} ', 'a + {f}', '{f} + a', 'a+{f}', '{f}*a', '(a * {f}) - 2',
       'a*({f})*b', '-{f}', '2 - (a + (b * ({f})))', '2 * a ** {f}',
       'np.exp({f})', 'np.maximum(a, {f})', 'np.maximum({f},a) - b',
       'a - np.exp(b + {f})', '{f} - {f}', 'a\t* {f}', '1e-3*{f}',
       '(a) - ({f})', '{L} + {f}', '{f} + {L}', '{L} - ({f}) - {L}',
       '{P} + {f}', '{f} + {P}', '({P} - a) * ({f})', 'np.where(a>b,a,{f})',
       'a + b # {f}', 'a # {f}', '# {f}\na', 'a\n+ {f}', '(a +\n {f})',
       '\n{f}', '{f}\n', 'a +\n\n\t{f}\n']
LONG = ' + '.join('a * %d' % i for i in range(60))
ENTRY = ['eq', 'eq_named', 'eq_dflt', 'add', 'sub', 'mul', 'div', 'pow',
         'replace', 'group', 'group_last', 'group_n1', 'group_n3',
         'group_yaml', 'group_yml', 'group_json', 'dir', 'dir_d1', 'dir_d3',
         'dir_n2', 'group_add', 'group_add_file', 'dir_add', 'key_group',
         'key_dir', 'cfg', 'cfg_first', 'cfg_last', 'cfg_yaml', 'cfg_yml',
         'cfg_json', 'cfg_ptr', 'cfg_ptr2', 'cfg_lib', 'cfg_ref', 'cfg_key']
BOUNDS = {t: '{} spellings of 7 fragments x {} templates x {} entry points'
          .format(sum(len(v) for v in FRAG.values()), len(TPL), len(ENTRY))
          for t in ('quick', 'thorough')}
ASSUMPTIONS = ['fragments inside the names of existing config entries (which '
               'are resolved, never executed) are outside of the alphabet',
               'the fragment "import " is followed by a further name']


def cases(tier):
    for fr, sps in FRAG.items():
        for s in sps:
            for t in TPL:
                for e in ENTRY:
                    yield {'fr': fr, 's': s, 't': t, 'e': e}


def dump(fp, obj):
    write_tree(os.path.dirname(fp), {
        os.path.basename(fp): ('json' if fp.endswith('json') else 'yaml',
                               obj)})


def nest(n, leaf):
    for i in range(n):
        leaf = {'e0': 'a', 'n%d' % i: leaf}
    return leaf


def enter(e, x, root, ctx):
    lib = os.path.join(root, 'lib')
    os.mkdir(lib)
    good = {'g1': 'a + b', 'g2': 'a * 2'}
    if e == 'eq':
        return Equation(x)
    if e == 'eq_named':
        return Equation(x, name='nm')
    if e == 'eq_dflt':
        return Equation(x, default_variables={'a': 1., 'b': 2.})
    if e in ('add', 'sub', 'mul', 'div', 'pow'):
        q = Equation('a + 1')
        return {'add': lambda: q + x, 'sub': lambda: q - x,
                'mul': lambda: q * x, 'div': lambda: q / x,
                'pow': lambda: q ** x}[e]()
    if e == 'replace':
        return Equation('a + 1', name='q').replace_equation(x)
    if e == 'group':
        return EquationGroup({'bad': x, **good})
    if e == 'group_last':
        return EquationGroup({**good, 'zbad': x})
    if e in ('group_n1', 'group_n3'):
        return EquationGroup(nest(int(e[-1]), {'bad': x, **good}))
    if e in ('group_yaml', 'group_yml', 'group_json'):
        fp = os.path.join(lib, 'g.' + e.split('_')[1])
        dump(fp, {**good, 'bad': x, 'last': 'b'})
        return EquationGroup(fp)
    if e in ('dir', 'dir_d1', 'dir_d3', 'dir_n2'):
        d = lib
        if e[-2] == 'd':
            for i in range(int(e[-1])):
                d = os.path.join(d, 'd%d' % i)
                os.mkdir(d)
                dump(os.path.join(d, 'ok.json'), good)
        obj = {'bad': x, **good}
        if e == 'dir_n2':
            obj = nest(2, obj)
        dump(os.path.join(d, 'g.json'), obj)
        return EquationDirectory(lib)
    if e == 'group_add':
        return EquationGroup(good) + {'bad': x}
    if e == 'group_add_file':
        fp = os.path.join(lib, 'g.json')
        dump(fp, {'bad': x})
        return EquationGroup(good) + fp
    if e == 'dir_add':
        dump(os.path.join(lib, 'g.json'), {'bad': x})
        l2 = os.path.join(root, 'lib2')
        os.mkdir(l2)
        dump(os.path.join(l2, 'ok.json'), good)
        return EquationDirectory(l2) + lib
    if e == 'key_group':
        return EquationGroup({'a': '1.5', 'b': '2.5'})[x]
    dump(os.path.join(lib, 'ok.json'), good)
    if e == 'key_dir':
        return EquationDirectory(lib)[x]
    cfg = {'equation_directory': lib, 'm': 'a * 2', 'n': 'ok::g1'}
    if e == 'cfg':
        cfg = {**cfg, 'y': x, 'z': 'm - n'}
    elif e == 'cfg_first':
        cfg = {'y': x, **cfg}
    elif e == 'cfg_last':
        cfg = {**cfg, 'y': x}
    elif e == 'cfg_ref':
        cfg = {**cfg, 'z': 'y * 2', 'y': x}
    elif e == 'cfg_key':
        cfg = {'equation_directory': lib, 'a': 2.0, 'b': 3.5, 'y': x}
    elif e in ('cfg_yaml', 'cfg_yml', 'cfg_json'):
        fp = os.path.join(root, 'c.' + e[4:])
        dump(fp, {**cfg, 'y': x})
        cfg = fp
    elif e in ('cfg_ptr', 'cfg_ptr2'):
        fp = os.path.join(root, 'c.yaml')
        dump(os.path.join(root, 'o.yaml'), {'q': x})
        tgt = './o.yaml::q'
        if e == 'cfg_ptr2':
            dump(os.path.join(root, 'p.json'), {'r': tgt})
            tgt = './p.json::r'
        dump(fp, {**cfg, 'y': tgt})
        cfg = fp
    elif e == 'cfg_lib':
        dump(os.path.join(lib, 'zg.json'), {'bad': x})
        cfg = {**cfg, 'z': 'm - n'}
    return NrwalConfig(cfg, inputs={'a': 1.5, 'b': 2.5})


def run(case, ctx):
    root = ctx.fresh_dir()
    mark = os.path.join(root, 'ran.npy')
    pay = 'np.save("{}", 1)'.format(mark)
    x = case['t'].replace('{f}', case['s']).replace('{L}', LONG).replace(
        '{P}', pay)
    assert case['fr'] in x
    ctx.state(case)
    ck = (case['t'], case['e'])
    if ck not in ctx.cache:
        # the same text with a harmless name: is the entry point live?
        ok = case['t'].replace('{f}', 'b').replace('{L}', LONG).replace(
            '{P}', 'np.exp(1)')
        ctx.cache[ck] = ctx.call(enter, case['e'], ok, ctx.fresh_dir(),
                                 ctx)[0]
        ctx.outcome('control ' + ctx.cache[ck])
    st, got = ctx.call(enter, case['e'], x, root, ctx)
    if os.path.exists(mark):
        fail('{!r} via {}: part of it was executed'.format(x, case['e']))
    if st == 'ok':
        fail('{!r} via {} was accepted'.format(x, case['e']))
    ctx.outcome(type(got).__name__)
