"""Every ordered triple of entry kinds (inputs, constants, references, library
equations with and without variables file, sums of both, numpy calls, members of
a named group) x every subset of the inputs: required, missing and solvable must
be those of a set model, and evaluation succeeds (with the right values) if and
only if nothing is missing."""
import itertools
import os
from mc.common import *

VAL = {'x': 1.75, 'y': -2.5, 'Z': 3.0, 'w': 0.5, 'u': 9.0, 'v': 1.25,
       'q': -0.75, 'o': 3.5}
ZERO = {'x': 0, 'y': 0.0, 'Z': 0.0, 'w': -0.5, 'u': 0, 'v': 0.0, 'q': 0, 'o': 0}
ARR = {'x': np.array([0.0, 2.0]), 'y': 0.0, 'Z': np.array([1.0, 0.0]),
       'w': np.array([0.25, -1.0]), 'u': np.zeros(2),
       'v': np.array([0.5, 0.0]), 'q': 3.0, 'o': -1.0}
DEF = {'w': 4.0, 'Z': 8.0, 'o': 0.0}
# kind -> (text, needs, defaults, references, function of env + references)
KINDS = {
    'x1': ('x + 1', 'x', '', (), lambda e: e['x'] + 1),
    'yx': ('y * (x - 2)', 'xy', '', (), lambda e: e['y'] * (e['x'] - 2)),
    'npz': ('np.log(Z) + 1', 'Z', '', (), lambda e: np.log(e['Z']) + 1),
    'np2': ('np.maximum(Z, x)', 'Zx', '', (), lambda e: np.maximum(e['Z'], e['x'])),
    'five': (5, '', '', (), lambda e: 5.0),
    'calc': ('2 * (3 + 4)', '', '', (), lambda e: 14.0),
    'nconst': ('np.sqrt(16)', '', '', (), lambda e: 4.0),
    'lconst': ('d::g::const', '', '', (), lambda e: 6.25),
    'ldef': ('d::g::e', 'xw', 'w', (), lambda e: e['x'] / e['w']),
    'lno': ('n::g::e', 'xw', '', (), lambda e: e['x'] + e['w']),
    'sum1': ('d::g::e + n::g::e', 'xw', 'w', (),
             lambda e: e['x'] / e['w'] + e['x'] + e['w']),
    'sum2': ('n::g::e * 2 - d::g::e', 'xw', 'w', (),
             lambda e: (e['x'] + e['w']) * 2 - e['x'] / e['w']),
    'lz': ('n::g::z1', 'Z', 'Z', (), lambda e: e['Z'] - 1),
    'lzw': ('d::g::zw * Z', 'Zw', 'Zw', (), lambda e: (e['Z'] + e['w'])
            * e['Z']),
    'grp': ('G::s::t', 'yw', 'w', (), lambda e: e['y'] - e['w']),
    'usea': ('n::g::usea', 'x', '', ('a',), lambda e: e['a'] - e['x']),
    'useb': ('d::g::useb', 'w', 'w', ('b',), lambda e: e['b'] * e['w']),
    'refa': ('a * 2', '', '', ('a',), lambda e: e['a'] * 2),
    'refb': ('b', '', '', ('b',), lambda e: e['b']),
    'npc': ('np.abs(c) - x', 'x', '', ('c',), lambda e: abs(e['c']) - e['x']),
    'k': ('k * y', 'y', '', ('k',), lambda e: e['k'] * e['y']),
    'var': ('d::variables::w + Z', 'Z', '', (), lambda e: 4.0 + e['Z']),
    'lo': ('n::g::lo', 'xo', 'o', (), lambda e: e['x'] - e['o']),
    'npk': ('np.sqrt(k)', '', '', ('k',), lambda e: np.sqrt(e['k'])),
    'lk': ('n::g::kk', '', '', ('k',), lambda e: e['k'] * 2),
    # variables with the name of a config entry that is a group or folder
    'nv': ('n::g::ev', 'xv', '', (), lambda e: e['x'] * e['v']),
    'npv': ('np.exp(v) + np.abs(q)', 'vq', '', (), lambda e: np.exp(e['v']) + abs(e['q'])),
    'lq': ('n::g::eq', 'qw', '', (), lambda e: e['q'] - e['w']),
}
INPUTS = ['x', 'y', 'Z', 'w', 'u', 'v', 'q', 'o']
BOUNDS = {'quick': 'all ordered triples of {} entry kinds (plus a constant and '
                   'a named group), inputs: all subsets of the names in use '
                   'and one unrelated name, with 3 sets of values (ordinary, '
                   'zeros, arrays)'.format(len(KINDS)),
          'thorough': 'ordered quadruples as well (first inputs subset '
                      'complement only)'}
CASE_LIMIT = 20


def cases(tier):
    ks = list(KINDS)
    for n in (1, 2, 3):
        for t in itertools.product(ks, repeat=n):
            yield {'k': list(t)}
    if tier == 'thorough':
        for t in itertools.product(ks, repeat=4):
            yield {'k': list(t)}


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    g = {'e': 'x / w', 'const': 6.25, 'useb': 'b * w', 's': {'t': 'y - w'},
         'zw': 'Z + w'}
    write_tree(d, {'d': {'g.json': ('json', g),
                         'variables.json': ('json', {'w': 4.0})},
                   'n': {'g.json': ('json', {'e': 'x + w', 'z1': 'Z - 1',
                                             'usea': 'a - x', 'ev': 'x * v',
                                             'eq': 'q - w', 'lo': 'x - o',
                                             'kk': 'k * 2'})},
                   'variables.yaml': ('yaml', {'Z': 8.0, 'o': 0})})
    ctx.cache['lib'] = d


def run(case, ctx):
    names = 'abcd'[:len(case['k'])]
    kinds = dict(zip(names, case['k']))
    kinds['k'] = 'kc'
    allk = dict(KINDS, kc=(3.5, '', '', (), lambda e: 3.5))
    # references must exist and be acyclic
    order, seen = [], set()

    def visit(n, path):
        if n not in kinds or n in path:
            return False
        if n in seen:
            return True
        for m in allk[kinds[n]][3]:
            if not visit(m, path + [n]):
                return False
        seen.add(n)
        order.append(n)
        return True
    if not all(visit(n, []) for n in list(kinds)):
        ctx.outcome('not in the family')
        return
    # needs of every entry; arithmetic, aliases and (since entries may be
    # inserted) all other references inherit the needs and defaults
    need, dfl, const = {}, {}, {}
    required = set()
    for n in order:
        _, nd, df, refs, _ = allk[kinds[n]]
        required |= {v for v in nd if v not in df}
        const[n] = not nd and all(const[m] for m in refs)
    cfg = {n: allk[kinds[n]][0] for n in names}
    cfg['k'] = 3.5
    if {'nv', 'npv', 'lq'} & set(case['k']):
        cfg['v'] = 'd::g'
        cfg['q'] = 'n'
    if 'grp' in case['k']:
        cfg['G'] = 'd::g'
    st, c = ctx.call(NrwalConfig, dict(cfg,
                                       equation_directory=ctx.cache['lib']))
    if st == 'err':
        fail('{}: refused {!r}'.format(case, c))
    # a variable that is defaulted in one entry and not in another stays
    # required, even where the entries are used together
    if list(c.required_inputs) != sorted(required):
        fail('{}: required {} expected {}'.format(case, c.required_inputs,
                                                  sorted(required)))
    gv = c.global_variables
    # entries whose formula names a constant follow inputs of that name
    plain = {}
    for n in order:
        plain[n] = const[n] and kinds[n] not in (
            'usea', 'useb', 'npc', 'npk', 'lk') and all(
                plain[m] for m in allk[kinds[n]][3])
    for n in names:
        if plain[n]:
            env = {}
            for m in order:
                if const[m]:
                    env[m] = allk[kinds[m]][4](env)
            if n not in gv or not scalar_close(gv[n], env[n], 1e-9):
                fail('{}: global variables {} lack {}'.format(case, gv, n))
    pool = [v for v in INPUTS if v == 'u' or any(
        v in allk[kinds[n]][1] for n in order)]
    for r in range(len(pool) + 1):
        for sub, vals in itertools.product(itertools.combinations(pool, r),
                                           (VAL, ZERO, ARR)):
            c.inputs = None
            c.inputs = {v: vals[v] for v in sub}
            ctx.op(2)
            if vals is ARR and required - set(sub):
                continue
            miss = sorted(required - set(sub))
            ctx.state([case, sub])
            if list(c.missing_inputs) != miss:
                fail('{} inputs {}: missing {} expected {}'.format(
                    case, sub, c.missing_inputs, miss))
            if bool(c.solvable) != (not miss):
                fail('{} inputs {}: solvable {}'.format(case, sub,
                                                        c.solvable))
            if list(c.required_inputs) != sorted(required):
                fail('{}: required inputs change with inputs'.format(case))
            st, out = ctx.call(c.evaluate)
            if miss:
                ctx.outcome('missing')
                if not (st == 'err' and isinstance(out, RuntimeError)):
                    fail('{} inputs {}: {!r} although {} are missing'.format(
                        case, sub, out, miss))
                continue
            ctx.outcome('solved')
            if st == 'err':
                fail('{} inputs {}: {!r}'.format(case, sub, out))
            env = dict(DEF)
            env.update({v: vals[v] for v in sub})
            for n in order:
                env[n] = allk[kinds[n]][4](env)
            for n in names:
                got = config_value(c, out, n)
                if isinstance(got, Equation) or not (
                        scalar_close(got, env[n], 1e-6)
                        if np.ndim(env[n]) == 0 else
                        close(got, env[n], 1e-6)):
                    fail('{} inputs {}: {} = {!r}, expected {!r}'.format(
                        case, sub, n, got, env[n]))
                if not const[n] and n not in out:
                    fail('{} inputs {}: no output for {}'.format(case, sub,
                                                                 n))
