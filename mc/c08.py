"""Every placement of two variables over the variables files of a folder tree x
loading from every folder x short histories of programmatic updates: the
default an equation, group or directory sees must be that of the nearest
enclosing definition; run-time values win over it."""
import itertools
import os
from mc.common import *

# folder -> children; names sort before and after the equation file
TREE = {'': ['A', 'z'], 'A': ['A/a', 'A/z'], 'A/a': [], 'A/z': [],
        'z': ['z/A'], 'z/A': []}
NODES = list(TREE)
EQNS = {'pq': 'p * 10 + q', 'p1': 'p - 1', 'q1': 'q / 2', 'none': 'r + 1',
        'sub': {'p2': 'p + s', 'deep': {'q2': 'q * q'}}}
# histories: [operation, folder or object, variables]; U / F: unforced /
# forced update of a directory, S: values set on a group or an equation
HIST = [[], ['U', '', 'p'], ['U', '', 'pq'], ['F', '', 'p'], ['F', '', 'pq'],
        ['U', 'A', 'q'], ['F', 'A', 'p'], ['F', 'z', 'q'],
        ['U', '', 'p', 'U', '', 'p'], ['U', '', 'pq', 'U', 'A', 'p'],
        ['U', 'A', 'p', 'U', '', 'q'], ['U', 'A', 'p', 'U', '', 'p'],
        ['U', '', 'q', 'F', '', 'p'], ['F', '', 'p', 'F', 'A', 'p'],
        ['F', 'A', 'q', 'F', '', 'p'], ['N'], ['U', '', 'r'],
        ['F', '', 'r'], ['S', '#g', 'p'], ['S', '#g::pq', 'p'],
        ['U', 'A/a', 'p', 'U', 'A', 'q'], ['F', 'z/A', 'pq'],
        ['S', 'A#g', 'p', 'F', '', 'p'], ['F', '', 'p', 'S', 'A#g::sub', 'p']]
OBJ = ['#g', '#g::sub', '#g::sub::deep', '#g::pq', '#g::sub::p2', 'A#g']
STEPS = [['S', o, v] for o in OBJ for v in ('p', 'q', 'pq')] + [
    ['F', '', 'p'], ['F', 'A', 'pq']]
GPATHS = ['g', 'g::sub', 'g::sub::deep', 'g::pq', 'g::p1', 'g::q1', 'g::none',
          'g::sub::p2', 'g::sub::deep::q2']
BOUNDS = {'quick': '4^6 placements of two variables over 6 folders with the '
                   'first of {} update histories and (4 placements kinds in '
                   'the root, 2 below) all histories; load from every folder; '
                   'chains of 6 folders; all sequences of 1 to 3 of {} settings '
                   'on groups, equations and (forced) folders; zero and '
                   'negative values rotated over the places'.format(
                       len(HIST), len(STEPS)),
          'thorough': '4^6 placements x all {} update histories'.format(
              len(HIST))}


def cases(tier):
    for k, c in enumerate(_cases(tier)):
        # which place holds a zero (the next one: a negative value)
        c['zero'] = k % 8 if k % 3 else None
        # looked at, retrieved and evaluated between the settings as well
        c['watch'] = k % 2
        yield c


def _cases(tier):
    for pl in itertools.product(('', 'p', 'q', 'pq'), repeat=6):
        yield {'pl': list(pl), 'h': []}
        if tier == 'thorough':
            for h in HIST[1:]:
                yield {'pl': list(pl), 'h': h}
    if tier != 'thorough':
        for r in ('', 'p', 'q', 'pq'):
            for pl in itertools.product(('', 'p'), repeat=5):
                for h in HIST[1:]:
                    yield {'pl': [r] + list(pl), 'h': h}
    for root in NODES[1:]:
        for pl in itertools.product(('', 'p'), repeat=6):
            yield {'pl': list(pl), 'h': [], 'root': root}
            yield {'pl': list(pl), 'h': ['U', root, 'p'], 'root': root}
    for pl in itertools.product(('', 'p', 'q'), repeat=6):
        if pl.count('q') <= 1:
            yield {'chain': list(pl)}
    # siblings in number, extensions, nothing but variables in between
    for n in (2, 3, 5, 9):
        for bits in itertools.product((0, 1), repeat=min(n, 5)):
            yield {'sib': n, 'bits': list(bits)}
    # settings on groups and equations: the latest wins
    for n in (1, 2, 3):
        for i, h in enumerate(itertools.product(STEPS, repeat=n)):
            for pl in (['', ''], ['p', 'q'], ['pq', 'p']) if n < 3 \
                    else (['pq', ''],) if i % 2 else (['', ''],):
                yield {'two': list(pl), 'h': sum(h, [])}
                # the same object is given the same value every time
                yield {'two': list(pl), 'h': sum(h, []), 'again': 1}


def val(i, var, zero=None):
    if zero is not None and i == zero:
        return 0 if var == 'p' else 0.0
    v = round(1.5 + 0.37 * i + (20 if var == 'q' else 0), 3)
    return -v if zero is not None and i == zero + 1 else v


def spec(case):
    """-> children map, file map (folder -> {var: value}), extension"""
    if 'chain' in case:
        nodes = ['']
        for i in range(1, 6):
            nodes.append((nodes[-1] + '/' if nodes[-1] else '')
                         + ('A%d' if i % 2 else 'z%d') % i)
        ch = {n: [nodes[i + 1]] if i < 5 else [] for i, n in enumerate(nodes)}
        pl = case['chain']
    elif 'sib' in case:
        nodes = [''] + ['%s%d' % ('Az'[i % 2], i) for i in range(case['sib'])]
        ch = {'': nodes[1:], **{n: [] for n in nodes[1:]}}
        b = case['bits']
        pl = [''] + ['p' if b[i % len(b)] else '' for i in range(case['sib'])]
    elif 'two' in case:
        nodes, ch, pl = ['', 'A'], {'': ['A'], 'A': []}, case['two']
    else:
        nodes, ch, pl = NODES, TREE, case['pl']
    files = {n: {v: val(i, v, case.get('zero')) for v in p}
             for i, (n, p) in enumerate(zip(nodes, pl)) if p}
    return ch, files


def path_of(root, node):
    return os.path.join(root, *node.split('/')) if node else root


def run(case, ctx):
    ch, files = spec(case)
    disk = ctx.fresh_dir()
    for i, n in enumerate(ch):
        p = path_of(disk, n)
        os.makedirs(p, exist_ok=True)
        t = {'g.json': ('json', EQNS)}
        if n in files:
            t['variables.' + ('json', 'yaml', 'yml')[i % 3]] = (
                'json', files[n])
        write_tree(p, t)
    top = case.get('root', '')
    ctx.state(case)
    st, d = ctx.call(EquationDirectory, path_of(disk, top))
    if st == 'err':
        fail('{} refused: {!r}'.format(case, d))
    cur = {}        # defaults in force per folder and object

    def put(n, obj, new):
        """values set on an object of folder n reach everything in it"""
        for p in [''] + GPATHS:
            if p == obj or obj == '' or p.startswith(obj + '::'):
                cur.setdefault((n, p), {}).update(new)

    def push(n, vg, force):
        vg = dict(vg)
        if not force:
            vg.update(files.get(n, {}))
        put(n, '', vg)
        for c in ch[n]:
            push(c, vg, force)

    push(top, {}, False)
    h = list(case.get('h', []))
    if h and case.get('watch'):
        look(case, ctx, d, top, cur)
    step = 0
    while h:
        op = h.pop(0)
        if op == 'N':
            ctx.call(d.set_default_variables)
            push(top, {}, False)
            continue
        node, vs = h.pop(0), h.pop(0)
        node, _, inner = node.partition('#')
        step += 1
        sv = step if not case.get('again') else 2 + len(node) + len(inner)
        new = {v: 100.0 + sv + (50 if v == 'q' else 0) for v in vs}
        if not case.get('again') and case.get('zero') is not None \
                and case['zero'] % 3 == step - 1:
            new = {v: 0.0 if v == 'p' else -0.5 for v in vs}
        arg = dict(new)
        rel = node[len(top):].lstrip('/') if top else node
        obj = d['::'.join(rel.split('/'))] if rel else d
        if op in 'UF':
            st, e = ctx.call(obj.set_default_variables, arg,
                             force_update=op == 'F')
            push(node, new, op == 'F')
        else:
            if step % 2:
                obj = obj[inner]
            else:
                for part in inner.split('::'):
                    obj = obj[part]
            st, e = ctx.call(obj.set_default_variables, arg)
            put(node, inner, new)
        if st == 'err':
            fail('{}: update failed {!r}'.format(case, e))
        if arg != new:
            fail('{}: the argument of the update was changed'.format(case))
        if h and case.get('watch'):
            look(case, ctx, d, top, cur)
    look(case, ctx, d, top, cur)


def look(case, ctx, d, top, cur):
    for n in {k[0] for k in cur}:
        rel = n[len(top):].lstrip('/') if top else n
        pre = '::'.join(rel.split('/')) + '::' if rel else ''
        dobj = d[pre[:-2]] if pre else d
        see(case, n + ' (directory)', dobj.default_variables, cur[n, ''])
        for k in ('g', 'g::sub', 'g::sub::deep'):
            see(case, n + ' ' + k, d[pre + k].default_variables, cur[n, k])
        for k, f in (('pq', EQNS['pq']), ('p1', EQNS['p1']),
                     ('q1', EQNS['q1']), ('none', EQNS['none']),
                     ('sub::p2', 'p + s'), ('sub::deep::q2', 'q * q')):
            w = cur[n, 'g::' + k]
            eq = d[pre + 'g::' + k]
            see(case, n + ' ' + k, eq.default_variables, w)
            need = set(eq.variables)
            given = {'r': 0.5, 's': 0.25}
            env = {**w, **given}
            st, got = ctx.call(eq.eval, **given)
            if need <= set(env):
                ref = eval(f, {}, env)
                if st == 'err' or not scalar_close(got, ref):
                    fail('{}: {} in {!r} gives {!r}, expected {!r}'.format(
                        case, k, n, got, ref))
                ctx.outcome('default')
            else:
                if not (st == 'err' and isinstance(got, RuntimeError)):
                    fail('{}: {} in {!r} gives {!r} without a default'.format(
                        case, k, n, got))
                ctx.outcome('no default')
            given = {'r': 0.5, 's': 0.25, 'p': 0.01, 'q': 0.02}
            st, got = ctx.call(eq.eval, **given)
            if st == 'err' or not scalar_close(got, eval(f, {}, given)):
                fail('{}: run-time value ignored: {} {!r}'.format(case, k,
                                                                  got))
        # arithmetic keys see the same defaults (the right operand's for
        # names that both use)
        for a, b in (('p1', 'q1'), ('p1', 'pq'), ('pq', 'q1')):
            w = dict(cur[n, 'g::' + b])
            for v in cur[n, 'g::' + a]:
                if v not in w or v not in EQNS[b]:
                    w[v] = cur[n, 'g::' + a][v]
            ref = None
            if all(v in w for v in 'pq' if v in EQNS[a] + EQNS[b]):
                ref = eval(EQNS[a], {}, w) * 2 - (eval(EQNS[b], {}, w))
            for obj, pk in ((d, pre + 'g::'), (d[pre + 'g'], '')):
                st, got = ctx.call(lambda: obj['{0}{1} * 2 - {0}{2}'.format(
                    pk, a, b)].eval())
                if ref is None and st == 'ok':
                    fail('{}: {} and {} in {!r} give {!r} without a '
                         'default'.format(case, a, b, n, got))
                if ref is not None and (st == 'err'
                                        or not scalar_close(got, ref)):
                    fail('{}: {} * 2 - {} in {!r} gives {!r}, expected '
                         '{!r}'.format(case, a, b, n, got, ref))


def see(case, where, got, want):
    got = {k: v for k, v in dict(got).items()}
    if got != want:
        fail('{}: defaults of {!r} are {}, expected {}'.format(
            case, where, got, want))
