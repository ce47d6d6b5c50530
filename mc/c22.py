"""Every ordered choice of config entries x every history of input updates,
evaluations (complete, with inputs missing, failing half way) and output resets
up to a depth: after every step everything the config reports about itself
(keys, items, values, entries by key / attribute / get, results, constants,
variables, what is solved and what is to be solved) is compared with a model."""
import itertools
import os
import re
from mc.common import *
from mc.c10 import same

# entry -> (config text, reference formula; None for a group)
ENTRY = {
    'k': (3, '3'), 'kc': ('2 * (1 + 4)', '10'), 'm': ('x + y', 'x + y'),
    'p': ('m * 2', 'm * 2'), 'l': ('g::e', 'x * w'),
    'grp': ('g', None), 'n': ('np.maximum(x, k)', 'np.maximum(x, k)'),
    'al': ('m', 'm'), 'z0': ('x * 0', 'x * 0'),
    'mem': ('grp::e2 - p', 'y - q - p'), 'fold': ('sub', None),
    'kn': ('np.sqrt(9)', '3'), 'neg': ('-x * Yb', '-x * Yb')}
DFLT = {'w': 4.0, 'q': 0.5}
A2, A3 = [1.5, -4.0], [2.0, 3.0, 5.0]
FULL = {'x': 2.0, 'y': 3.0, 'k': 7.0, 'm': 11.0, 'p': 13.0,
        'Yb': -1.5}
SET = {'full': FULL, 'x': {'x': 0}, 'arr': {'x': A2}, 'odd': {'y': A3},
       'w': {'w': 0.0}}
OPS = ['s:full', 's:x', 's:arr', 's:odd', 's:w', 'clear', 'e', 'e:full',
       'e:arr', 'e:odd', 'e:x', 'reset', 'r:last', 'r:first', 'r:nothing',
       'bad']
BOUNDS = {
    'quick': 'all ordered choices of 1 or 2 of {} entries (member entries with '
             'their group) and one config with all, histories of length <= 2 '
             'over {} operations; 3 entries / all entries with length 3 '
             '(rotating)'.format(len(ENTRY), len(OPS)),
    'thorough': 'histories of length 3 for all, of length 4 for the config '
                'with all entries'}
CASE_LIMIT = 20
ALL = ['p', 'grp', 'm', 'k', 'l', 'kn', 'n', 'mem', 'al', 'z0', 'fold', 'neg',
       'kc']


def configs(n):
    for t in itertools.permutations(ENTRY, n):
        if 'mem' in t and 'grp' not in t:
            continue
        yield list(t)


def cases(tier):
    deep = tier == 'thorough'
    for n in (1, 2):
        for i, t in enumerate(configs(n)):
            for m in (1, 2):
                for j, h in enumerate(itertools.product(OPS, repeat=m)):
                    if deep or m == 1 or n == 1 or (i + j) % 3 == 0:
                        yield {'c': t, 'h': list(h)}
    for m in (1, 2, 3, 4) if deep else (1, 2, 3):
        for h in itertools.product(OPS, repeat=m):
            if m < 3 or deep or any(o[0] == 'e' for o in h[:2]):
                yield {'c': ALL, 'h': list(h)}
    three = list(configs(3))
    for i, h in enumerate(itertools.product(OPS, repeat=3)):
        yield {'c': three[i % len(three)], 'h': list(h)}
        if deep:
            for t in three[i % 9::9]:
                yield {'c': t, 'h': list(h)}


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    write_tree(d, {'g.json': ('json', {'e': 'x * w', 'e2': 'y - q',
                                       's': {'t': 'x'}}),
                   'variables.json': ('json', DFLT),
                   'sub': {'h.yaml': ('yaml', {'o': 'x / 2'})}})
    ctx.cache['lib'] = d


NAMES = re.compile(r'(?<![\w.])(?!np\b)[A-Za-z]\w*')


def names(f):
    return sorted(set(NAMES.findall(f)))


class Model:
    def __init__(self, entries):
        self.entries = entries
        self.eqs = [e for e in entries if ENTRY[e][1] is not None]
        self.const = {e: float(ENTRY[e][1]) for e in self.eqs
                      if not names(ENTRY[e][1])}
        self.todo = [e for e in self.eqs if e not in self.const]
        self.inp = {}
        self.out = {}

    def uses(self, e):
        return names(ENTRY[e][1])

    def defaults(self, e):
        return DFLT if e in ('l', 'mem') else {}

    def missing(self):
        return sorted({v for e in self.eqs for v in self.uses(e)
                       if v not in self.entries
                       and v not in self.defaults(e)
                       and v not in self.inp})

    def value(self, e, seen=()):
        env = {}
        for v in self.uses(e):
            if v in self.todo:
                env[v] = self.value(v)
            elif v in self.inp:
                env[v] = val(self.inp[v])
            elif v in self.const:
                env[v] = self.const[v]
            else:
                env[v] = self.defaults(e)[v]
        return eval(ENTRY[e][1], {'np': np}, env)

    def evaluate(self):
        """-> 'missing' | 'fail' | 'ok', and the results that can be had"""
        if self.missing():
            return 'missing', {}
        out, how = {}, 'ok'
        for e in self.todo:
            try:
                out[e] = self.value(e)
            except ValueError:
                how = 'fail'
        return how, out


def val(v):
    return np.array(v) if isinstance(v, list) else v


def run(case, ctx):
    m = Model(case['c'])
    conf = {e: ENTRY[e][0] for e in case['c']}
    conf['equation_directory'] = ctx.cache['lib']
    cfg = NrwalConfig(conf)
    may = {}        # results that may or may not be there (failed evaluation)
    look('{} start'.format(case), cfg, m, may)
    for i, op in enumerate(case['h']):
        where = '{} step {} ({})'.format(case, i, op)
        new = SET.get(op[2:])
        # only names that are not computed by the config itself
        args = None if new is None else {k: val(v) for k, v in new.items()}
        if op == 'clear':
            ctx.op()
            cfg.inputs = None
            m.inp = {}
        elif op == 'bad':
            st, r = ctx.call(setattr, cfg, 'inputs', [1])
            if st == 'ok':
                fail(where + ': a list was accepted as inputs')
        elif op[0] == 's':
            ctx.op()
            cfg.inputs = args
            m.inp.update(new)
        elif op[0] == 'e':
            st, r = ctx.call(cfg.evaluate, args) if args else \
                ctx.call(cfg.evaluate)
            m.inp.update(new or {})
            how, out = m.evaluate()
            ctx.outcome(how)
            if (st == 'ok') != (how == 'ok'):
                fail('{}: evaluation gave {!r}'.format(where, r))
            if how == 'ok':
                m.out, may = out, {}
                if r is not cfg.outputs and set(r) != set(cfg.outputs):
                    fail('{}: returned {}, outputs {}'.format(
                        where, r, cfg.outputs))
            elif how == 'fail':
                m.out, may = {}, out
            else:
                # refused before anything was computed: earlier results may
                # stay
                may = dict(may, **m.out)
                m.out = {}
        elif op == 'reset':
            ctx.op()
            cfg.reset_output()
            m.out, may = {}, {}
        else:
            key = {'last': case['c'][-1], 'first': case['c'][0]}.get(
                op[2:], 'nothing')
            ctx.op()
            cfg.reset_output(key)
            m.out.pop(key, None)
            may = {k: v for k, v in may.items() if k != key}
        ctx.state([case['c'], sorted(m.inp), sorted(m.out), sorted(may)])
        look(where, cfg, m, may)


def look(where, cfg, m, may):
    for nm, got in (('keys', list(cfg.keys())),
                    ('items', [k for k, _ in cfg.items()])):
        if got != m.entries:
            fail('{}: {} gives {}'.format(where, nm, got))
    items = list(cfg.items())
    if [id(v) for v in cfg.values()] != [id(v) for _, v in items]:
        fail('{}: values are not those of the items'.format(where))
    for k, v in items:
        kind = (EquationDirectory if k == 'fold' else EquationGroup
                if k == 'grp' else Equation)
        if type(v) is not kind:
            fail('{}: entry {} is {!r}'.format(where, k, v))
    out = cfg.outputs
    for k in m.out:
        if k not in out:
            fail('{}: {} was evaluated but has no result'.format(where, k))
    for k in out:
        if k in m.const:
            want = m.const[k]
        elif k in m.out:
            want = m.out[k]
        elif k in may:
            want = may[k]
        else:
            fail('{}: {} has the result {!r} that was reset or never '
                 'computed'.format(where, k, out[k]))
        if not same(out[k], want):
            fail('{}: result {} = {!r}, expected {!r}'.format(
                where, k, out[k], want))
    for k, entry in items:
        want = out[k] if k in out else entry
        for nm, got in (('[]', cfg[k]), ('attribute', getattr(cfg, k)),
                        ('get', cfg.get(k, 'fallback'))):
            if got is not want and not (k in out and same(got, want)):
                fail('{}: {} by {} gives {!r}, expected {!r}'.format(
                    where, k, nm, got, want))
    for k in ('none', 'x', 'g'):
        st = []
        for f in (lambda: cfg[k], lambda: getattr(cfg, k)):
            try:
                st.append(f())
            except (KeyError, AttributeError) as e:
                st.append(type(e))
        if not issubclass(st[0] if isinstance(st[0], type) else int, KeyError):
            fail('{}: unknown key {} gives {!r}'.format(where, k, st[0]))
        if not isinstance(st[1], type):
            fail('{}: unknown attribute {} gives {!r}'.format(where, k, st[1]))
        for d in ('fallback', None, 0):
            if cfg.get(k, d) is not d:
                fail('{}: get of unknown {} is {!r}'.format(where, k,
                                                            cfg.get(k, d)))
    todo = [k for k in m.todo if k not in out]
    if list(cfg.to_be_solved) != todo or bool(cfg.solved) != (not todo):
        fail('{}: to be solved {} (solved: {}), expected {}'.format(
            where, cfg.to_be_solved, cfg.solved, todo))
    gv = cfg.global_variables
    if set(gv) != set(m.const) or any(not same(gv[k], v)
                                      for k, v in m.const.items()):
        fail('{}: constants {}, expected {}'.format(where, gv, m.const))
    # entries used by other entries may be named or spelled out
    got = list(cfg.all_variables)
    used = {v for e in m.todo for v in m.uses(e)}
    least = set(m.const) | (used - set(m.todo))
    if got != sorted(set(got)) or not least <= set(got) <= least | used:
        fail('{}: all variables {}, expected {} (and possibly {})'.format(
            where, got, sorted(least), sorted(used - least)))
    if set(got) != set(gv) | {v for _, e in items if isinstance(e, Equation)
                              for v in e.variables}:
        fail('{}: all variables {}, not those of the equations'.format(
            where, got))
    if list(cfg.missing_inputs) != m.missing():
        fail('{}: missing {}, expected {}'.format(
            where, cfg.missing_inputs, m.missing()))
