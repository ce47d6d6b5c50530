"""Every kind of equation x every history of printing, setting defaults,
combining, replacing, copying: after every step the printed form, the formula
text and an equation rebuilt from it are compared with a model; every small
group, folder and config over an alphabet of entries: the printed lines, head
and tail are those of the model, before and after updates of the defaults."""
import copy
import itertools
import os
from mc.common import *

# kind -> (text, name, defaults)
EQ = {
    'num': ('100', None, {}), 'numn': (2.5, 'k', {}), 'neg': (-3, None, {}),
    'sci': ('1e-3', 's', {}), 'v': ('a', None, {}), 'vn': ('a * b', 'e', {}),
    'vd': ('a * b + c', 'e', {'b': 5.0}), 'dd': ('b', 'q', {'b': 0.0}),
    'two': ('c - a * b', 'two', {'c': 1.5, 'a': -2.0}),
    'all': ('b / a', None, {'b': 4.0, 'a': 8.0, 'zz': 1.0}),
    'fun': ('np.maximum(a, b) ** 2', 'f', {'a': 3.0}),
    'const': ('2 * (1 + 4)', 'kc', {}), 'cons2': ('2 + 3', None, {'a': 1.0}),
    'long': ('zeta + alpha * Beta - x_1 / x_10', 'l', {'alpha': 1.0})}
ENV = {'a': 1.75, 'b': -2.5, 'c': 3.25, 'zeta': 0.5, 'alpha': 7.5,
       'Beta': 2.0, 'x_1': -1.25, 'x_10': 4.0, 'w': 0.25, 'p': 6.5}
SETS = [{'b': 7.0}, {'a': 0.0, 'c': -1.0}, {'zz': 2.0}, {'alpha': 1234567.8912345},
        {'b': 3.0517578125e-05}]
OPS = ['print', 'copy', 'repl'] + ['set%d' % i for i in range(len(SETS))] + [
    'add:num', 'sub:vd', 'mul:dd', 'div:vn', 'pow:neg', 'radd:two', 'rsub:vn',
    'self', 'str', 'float']
BOUNDS = {
    'quick': '{} kinds of equations x all histories of <= 3 of {} operations; '
             'groups of <= 3 of 6 entries x nesting x naming x file, folders '
             'of <= 3 of 6 items, configs of <= 3 of 9 entries; each printed '
             'before and after 4 updates'.format(len(EQ), len(OPS)),
    'thorough': 'histories of length 4, groups, folders and configs of <= 4'}
CASE_LIMIT = 20

GITEMS = {'e1': 'a * b', 'n': 12, 'c_3MW': 'e1 + p', 'sub': {'x': 'a', 'y': 2},
          'deep': {'in': {'z': 'b / p'}, 'u': 'w'}, 'E2': 'np.exp(a) + 1e3'}
DITEMS = {'g.yaml': {'e': 'a * w', 's': {'t': 'b'}}, 'h.json': {'k': 3},
          'variables.yaml': {'w': 0.25, 'p': 7}, 'd1': {'i.yml': {'o': 'p'}},
          'd2': {'variables.json': {'w': 9.0}, 'j.yaml': {'r': 'w + a'}},
          'd3': {'d4': {'m.yaml': {'q': 'a ** 2'}}}}
CITEMS = {'k': 3, 'kc': '2 * 5', 'm': 'x + y', 'al': 'm', 'lib': 'g::e',
          'grp': 'g', 'fold': 'd1', 'np_': 'np.maximum(x, k)',
          'mem': 'g::s::t * 2'}


def cases(tier):
    deep = tier == 'thorough'
    for k in EQ:
        for n in range(0, 5 if deep else 4):
            for h in itertools.product(OPS, repeat=n):
                if n < 3 or deep or k in ('vd', 'dd', 'num', 'two', 'vn'):
                    yield {'t': 'eq', 'k': k, 'h': list(h)}
    top = 5 if deep else 4
    for t, items in (('group', GITEMS), ('dir', DITEMS), ('cfg', CITEMS)):
        for n in range(1, top):
            for p in itertools.permutations(items, n):
                if t == 'dir' and list(p) != sorted(p):
                    continue
                for how in range(HOW[t]):
                    yield {'t': t, 'items': list(p), 'how': how}
    yield {'t': 'dir', 'items': list(DITEMS), 'how': 0}
    yield {'t': 'group', 'items': list(GITEMS), 'how': 0}
    yield {'t': 'cfg', 'items': list(CITEMS), 'how': 0}


HOW = {'group': 3, 'dir': 2, 'cfg': 2}


def free(text):
    import ast
    t = ast.parse(str(text), mode='eval')
    return sorted({x.id for x in ast.walk(t) if isinstance(x, ast.Name)
                   and x.id != 'np'})


def isnum(text):
    try:
        float(str(text))
        return True
    except ValueError:
        return False


class M:
    """model of one equation: text, name, defaults, fixed print or None"""

    def __init__(self, text, name, dfl, fixed=None):
        self.text, self.name = text, name
        self.dfl, self.fixed = dict(dfl), fixed

    def show(self):
        if self.fixed is not None:
            return self.fixed
        if isnum(self.text):
            return str(self.text)
        vs = free(self.text)
        args = [v for v in vs if v not in self.dfl] + [
            '{}={}'.format(v, self.dfl[v]) for v in vs if v in self.dfl]
        return '{}({})'.format('Equation' if self.name is None else self.name,
                               ', '.join(args))

    def value(self):
        env = dict(ENV, **{k: v for k, v in self.dfl.items()})
        return eval(str(self.text), {'np': np}, env)


def combine(a, b, op):
    d = dict(a.dfl)
    only = set(free(a.text)) - set(free(b.text))
    d.update({k: v for k, v in b.dfl.items() if k not in only or k not in d})
    return M('({}) {} ({})'.format(a.text, op, b.text), None, d,
             '({} {} {})'.format(a.show(), op, b.show()))


SYM = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**'}


def ap(x, y, op):
    return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
            '/': lambda: x / y, '**': lambda: x ** y}[op]()


def run(case, ctx):
    with np.errstate(all='ignore'):
        {'eq': run_eq, 'group': run_group, 'dir': run_dir,
         'cfg': run_cfg}[case['t']](case, ctx)


def make(kind):
    text, name, dfl = EQ[kind]
    return Equation(text, name=name, default_variables=dict(dfl)), \
        M(text, name, dfl)


def look(where, e, m, ctx):
    ctx.op(3)
    for nm, got in (('str', str(e)), ('repr', repr(e)),
                    ('format', '{}'.format(e))):
        if got != m.show():
            fail('{}: {} is {!r}, expected {!r}'.format(where, nm, got,
                                                        m.show()))
    try:
        want = m.value()
    except (ZeroDivisionError, OverflowError):
        ctx.outcome('no value')
        return
    env = {v: ENV[v] for v in e.variables if v not in m.dfl}
    st, got = ctx.call(Equation(e.full, default_variables=e.default_variables)
                       .evaluate, **env)
    if st == 'err' or not scalar_close(got, want):
        fail('{}: {!r} rebuilt from its text gives {!r}, expected {!r}'.format(
            where, e.full, got, want))
    if free(e.full) != free(m.text):
        fail('{}: text {!r}, expected the variables of {!r}'.format(
            where, e.full, m.text))
    ctx.outcome('printed')


def run_eq(case, ctx):
    e, m = make(case['k'])
    olds = []
    if not case['h']:
        look(str(case), e, m, ctx)
    for i, op in enumerate(case['h']):
        where = '{} step {}'.format(case, i)
        ctx.op()
        if op == 'print':
            look(where, e, m, ctx)
        elif op == 'copy':
            e = copy.deepcopy(e)
        elif op == 'repl':
            old = (e, m)
            olds.append(old)
            e = e.replace_equation('b * c + a')
            m = M('b * c + a', m.name, m.dfl)
        elif op[:3] == 'set':
            s = SETS[int(op[3:])]
            e.set_default_variables(dict(s))
            m.dfl.update(s)
        else:
            olds.append((e, m))
            if op == 'self':
                e, m = e * e, combine(m, m, '*')
            elif op == 'str':
                e, m = e + 'a * 2', combine(m, M('a * 2', None, {}), '+')
            elif op == 'float':
                e, m = e - 0.5, combine(m, M(0.5, None, {}), '-')
            else:
                o, k = op.split(':')
                e2, m2 = make(k)
                if o[0] == 'r':
                    o = SYM[o[1:]]
                    e, m = ap(e2, e, o), combine(m2, m, o)
                else:
                    o = SYM[o]
                    e, m = ap(e, e2, o), combine(m, m2, o)
                olds.append((e2, m2))
        ctx.state([m.text if len(str(m.text)) < 80 else hash(m.text),
                   sorted(m.dfl.items()), m.fixed])
    look('{} end'.format(case), e, m, ctx)
    for a, b in olds:
        look('{} operand'.format(case), a, b, ctx)


def indent(lines):
    return ['\t' + x for x in lines]


def glines(d, dfl):
    """lines of a group (without its heading)"""
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out += [k] + indent(glines(v, dfl))
        else:
            text = str(v)
            for n in ('e1',):
                if n in d and n != k and n in free(text):
                    text = text.replace(n, '({})'.format(d[n]))
            out.append(M(text, k, dfl).show())
    return out


UPD = [None, {'p': 1.23456789}, {'a': -1.0, 'p': 0.0},
       {'w': 2e-9, 'zz': 9.0}]


def text_is(where, got, want, ctx):
    ctx.op()
    if got != want:
        for a, b in itertools.zip_longest(got, want):
            if a != b:
                fail('{}: printed {!r} where {!r} was expected'.format(
                    where, a, b))
    ctx.outcome('printed')


def heads(where, obj, ctx):
    lines = str(obj).split('\n')
    if repr(obj) != str(obj):
        fail('{}: repr differs from str'.format(where))
    for n in (1, 2, 3, len(lines), len(lines) + 4):
        ctx.op(2)
        if obj.head(n) != '\n'.join(lines[:n]):
            fail('{}: head({}) is {!r}'.format(where, n, obj.head(n)))
        if obj.tail(n) != '\n'.join(lines[-n:]):
            fail('{}: tail({}) is {!r}'.format(where, n, obj.tail(n)))
    if obj.head() != '\n'.join(lines[:5]) or obj.tail() != '\n'.join(
            lines[-5:]):
        fail('{}: head() or tail() is not five lines'.format(where))
    return lines


def run_group(case, ctx):
    d = {k: GITEMS[k] for k in case['items']}
    name = None
    if case['how'] == 0:
        g = EquationGroup(copy.deepcopy(d))
    elif case['how'] == 1:
        name = 'nm'
        g = EquationGroup(copy.deepcopy(d), name='nm')
    else:
        name = 'ff.yaml'
        root = ctx.fresh_dir()
        write_tree(root, {name: ('yaml', d)})
        g = EquationGroup(os.path.join(root, name))
    ctx.state(case)
    dfl = {}
    for u in UPD:
        if u is not None:
            g.set_default_variables(u)
            dfl.update(u)
        where = '{} after {}'.format(case, u)
        lines = heads(where, g, ctx)
        if name is not None and name not in lines[0]:
            fail('{}: heading {!r}'.format(where, lines[0]))
        text_is(where, lines[1:], glines(d, dfl), ctx)


def dlines(d, dfl, forced):
    """lines of a folder (without its heading)"""
    dfl = dict(dfl)
    v = next((x for x in d if x.startswith('variables.')), None)
    out = []
    if v:
        dfl.update({k: float(x) for k, x in d[v].items()})
        dfl.update(forced)
        out += [v] + ['\t{}: {}'.format(k, float(x)) for k, x in d[v].items()]
    else:
        dfl.update(forced)
    for k in sorted(d):
        if '.' in k and k != v:
            out += [k] + indent(glines(d[k], dfl))
    for k in sorted(d):
        if '.' not in k:
            out += [k] + indent(dlines(d[k], dfl, forced))
    return out


def tree(d):
    return {k: (tree(v) if '.' not in k else
                ('json' if k.endswith('json') else 'yaml', v))
            for k, v in d.items()}


def run_dir(case, ctx):
    d = {k: DITEMS[k] for k in case['items']}
    root = os.path.join(ctx.fresh_dir(), 'libx')
    os.mkdir(root)
    write_tree(root, tree(d))
    e = EquationDirectory(root + ('/' if case['how'] else ''))
    ctx.state(case)
    dfl, forced = {}, {}
    for u in UPD:
        if u is not None:
            if case['how']:
                e.set_default_variables(u, force_update=True)
                forced.update(u)
            else:
                e.set_default_variables(u)
                dfl.update(u)
        where = '{} after {}'.format(case, u)
        lines = heads(where, e, ctx)
        if 'libx' not in lines[0]:
            fail('{}: heading {!r}'.format(where, lines[0]))
        text_is(where, lines[1:], dlines(d, dfl, forced), ctx)


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    write_tree(d, tree({k: v for k, v in DITEMS.items()
                        if k in ('g.yaml', 'd1', 'variables.yaml')}))
    ctx.cache['lib'] = d


def run_cfg(case, ctx):
    conf = {k: CITEMS[k] for k in case['items']}
    if 'al' in conf and 'm' not in conf:
        ctx.outcome('left out')
        return
    conf['equation_directory'] = ctx.cache['lib']
    c = NrwalConfig(conf)
    ctx.state(case)
    for step in range(3):
        where = '{} step {}'.format(case, step)
        lines = heads(where, c, ctx)
        if ctx.cache['lib'] not in lines[0]:
            fail('{}: heading {!r}'.format(where, lines[0]))
        want = []
        for k in case['items']:
            want.append(k)
            want += indent(str(dict(c.items())[k]).split('\n'))
        text_is(where, lines[1:], want, ctx)
        # entries by name: their own name and variables
        i = 1
        for k in case['items']:
            if lines[i] != k:
                fail('{}: entry {} printed as {!r}'.format(where, k, lines[i]))
            i += 1
            while i < len(lines) and lines[i][:1] == '\t':
                i += 1
        for k in case['items']:
            e = dict(c.items())[k]
            if isinstance(e, Equation) and not isnum(e.full):
                dfl = {v: e.default_variables[v] for v in e.variables
                       if v in e.default_variables}
                m = M(e.full, k, dfl)
                if str(e) != m.show():
                    fail('{}: {} printed as {!r}, expected {!r}'.format(
                        where, k, str(e), m.show()))
        if step == 0:
            c.inputs = {'x': 2, 'y': 3.5, 'a': 1, 'b': 2, 'k': 4}
        else:
            c.evaluate({'p': 3.0})
