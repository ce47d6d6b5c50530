"""Every equation of the shipped library (over a factorial grid of the values of
its variables, defaults used and overridden, and over all lookup switches for
requests between, at and beyond the available powers and years) and every entry
of every shipped default config (over a set of input vectors that varies every
input alone and in pairs, as scalars and as arrays) is compared with an
independent reference reading of the same files."""
import itertools
import os
from mc.common import *
from mc import core, ref

LIB = os.path.join(core.REPO, 'NRWAL', 'analysis_library')
CFG = os.path.join(core.REPO, 'NRWAL', 'default_configs')
LEVELS = [7.25, 31.5, 0.45, 112.0]
BOUNDS = {
    'quick': 'all library equations on the full 2-level factorial grid of '
             'their variables (3-level up to 5 variables) and with every '
             'default overridden; all (power, year) lookups at 5 requests x '
             '16 switch settings; all default configs: base vector, every '
             'input varied alone, arrays of the 2-level grid (up to 1024 '
             'points)',
    'thorough': '4-level grids up to 5 variables; configs also with every '
                'pair of inputs varied'}
CASE_LIMIT = 120


def config_files():
    out = []
    for d, _, fs in sorted(os.walk(CFG)):
        for f in sorted(fs):
            if f.endswith(ref.EXT):
                out.append(os.path.relpath(os.path.join(d, f), CFG))
    return out


def cases(tier):
    lib = ref.Library(LIB)
    for f in config_files():
        if 'aggregation' in f:
            continue
        yield {'cfg': f, 'part': 'one'}
        yield {'cfg': f, 'part': 'array'}
        if tier == 'thorough':
            for i in range(4):
                yield {'cfg': f, 'part': 'pairs', 'i': i}
    yield {'index': 1}
    for p in sorted(lib.groups):
        g = lib.groups[p]
        yield {'group': p}
        for k, v in g.e.items():
            if isinstance(v, dict):
                yield {'group': p + '::' + k}


def base(n):
    return [12.5, 3.25, 41.0, 8.75, 0.5, 23.0][core.h64(n) % 6] \
        + 0.125 * (core.h64(n + '!') % 7)


def alt(n, lev=0):
    return base(n) * (1.75, 0.375, 4.5)[lev]


def setup(ctx):
    ctx.cache['ref'] = ref.Library(LIB)
    ctx.cache['dirs'] = {}


def directory(ctx, flags):
    c = ctx.cache['dirs']
    if flags not in c:
        c[flags] = EquationDirectory(LIB, **dict(zip(
            ('interp_extrap_power', 'use_nearest_power',
             'interp_extrap_year', 'use_nearest_year'), flags)))
        ctx.op()
    return c[flags]


def run(case, ctx):
    if 'index' in case:
        return run_index(ctx)
    if 'group' in case:
        return run_group(case['group'], ctx)
    return run_config(case, ctx)


def run_index(ctx):
    lib = ctx.cache['ref']
    d = directory(ctx, (False,) * 4)
    want = sorted(k for _, _, k in lib.equations())
    if len(d.all_equations) != len(want):
        fail('{} equations listed, {} in the files'.format(
            len(d.all_equations), len(want)))
    for p, gp, k in lib.equations():
        st, e = ctx.call(d.__getitem__, p)
        ctx.state(p)
        if st == 'err' or not isinstance(e, Equation):
            fail('{} -> {!r}'.format(p, e))


def compare(what, e, fun, env, ctx):
    """e: Equation; fun: reference with the same environment"""
    def look(n):
        if n in env:
            return env[n]
        raise ref.Missing(n)
    try:
        with np.errstate(all='ignore'):
            want = fun(look)
    except ref.Undefined:
        st, got = ctx.call(e.evaluate, **env)
        if st == 'ok':
            fail('{} at {}: {!r} instead of an error'.format(what, env, got))
        return
    with np.errstate(all='ignore'):
        st, got = ctx.call(e.evaluate, **env)
    if st == 'err':
        fail('{} at {}: {!r}, expected {!r}'.format(what, env, got, want))
    if np.ndim(want):
        if not close(got, want, 1e-9):
            fail('{} at {}: {!r}, expected {!r}'.format(what, env, got, want))
    elif not scalar_close(got, want, 1e-9):
        fail('{} at {}: {!r}, expected {!r}'.format(what, env, got, want))


def run_group(gp, ctx):
    lib = ctx.cache['ref']
    g = lib.group(gp)
    d = directory(ctx, (False,) * 4)
    for k in g.e:
        if isinstance(g.e[k], dict):
            continue
        k = str(k)
        path = gp + '::' + k
        st, e = ctx.call(d.__getitem__, path)
        if st == 'err' or not isinstance(e, Equation):
            fail('{} -> {!r}'.format(path, e))
        need = sorted(lib.needs(g, k))
        if list(e.variables) != need:
            fail('{}: variables {} expected {}'.format(path, e.variables,
                                                       need))
        free = [n for n in need if n not in g.defaults]
        dfl = [n for n in need if n in g.defaults]
        for n in dfl:
            if e.default_variables.get(n) != g.defaults[n]:
                fail('{}: default of {} is {!r}, expected {!r}'.format(
                    path, n, e.default_variables.get(n), g.defaults[n]))
        lev = 2 if len(free) > 5 else (4 if ctx.tier == 'thorough' else 3)
        lev = min(lev, 4)
        for combo in itertools.product(range(lev), repeat=min(len(free), 9)):
            env = {n: base(n) if c == 0 else alt(n, c - 1)
                   for n, c in zip(free, combo)}
            for n in free[9:]:
                env[n] = base(n)
            ctx.state([path, combo])
            compare(path, e, lambda look: lib.value(g, k, look), env, ctx)
        env = {n: base(n) for n in free}
        for n in dfl:
            compare(path, e, lambda look: lib.value(g, k, look),
                    dict(env, **{n: alt(n)}), ctx)
        compare(path, e, lambda look: lib.value(g, k, look),
                {n: np.array([base(n), alt(n), alt(n, 1)]) for n in need},
                ctx)
        for n in free:
            st, got = ctx.call(e.evaluate, **{m: v for m, v in env.items()
                                              if m != n})
            if not (st == 'err' and isinstance(got, RuntimeError)):
                fail('{} without {}: {!r}'.format(path, n, got))
        ctx.outcome('equation')
    # lookups
    seen = {}
    for k in g.e:
        q = ref.pattern(str(k))
        if q and not isinstance(g.e[k], dict):
            seen.setdefault(q[:2], []).append(q[2])
    flagsets = list(itertools.product((False, True), repeat=4))
    for (kind, bname), vals in seen.items():
        vals = sorted(vals)
        reqs = [vals[0] - 1, vals[0], (vals[0] + vals[-1]) // 2 + 1,
                vals[-1] + 3]
        if len(vals) > 1:
            reqs.append((vals[-2] + vals[-1]) // 2)
        for r in sorted({x for x in reqs if x >= 0}):
            k = '{}_{}{}'.format(bname, r, 'MW' if kind == 'P' else '')
            # ambiguous if two are equally near on both sides of the cut
            dist = sorted(abs(v - r) for v in vals)
            tie2 = len(dist) > 2 and dist[1] == dist[2]
            tie1 = len(dist) > 1 and dist[0] == dist[1]
            for flags in flagsets:
                interp = flags[0] if kind == 'P' else flags[2]
                near = flags[1] if kind == 'P' else flags[3]
                if k not in g.e and ((interp and tie2)
                                     or (not interp and near and tie1)):
                    continue
                st, e = ctx.call(directory(ctx, flags).__getitem__,
                                 gp + '::' + k)
                ctx.state([gp, k, flags])
                if k not in g.e and not (interp or near):
                    ctx.outcome('KeyError')
                    if not (st == 'err' and isinstance(e, KeyError)):
                        fail('{}::{} {}: {!r}'.format(gp, k, flags, e))
                    continue
                if st == 'err':
                    fail('{}::{} {}: {!r}'.format(gp, k, flags, e))
                env = {n: base(n) for n in e.variables
                       if n not in e.default_variables}
                ctx.outcome('lookup')
                compare('{}::{} {}'.format(gp, k, flags), e,
                        lambda look: lib.value(g, k, look, flags), env, ctx)


def run_config(case, ctx):
    fp = os.path.join(CFG, case['cfg'])
    rc = ref.Config(fp, ctx.cache['ref'])
    st, c = ctx.call(NrwalConfig, fp)
    if st == 'err':
        fail('{} does not load: {!r}'.format(case['cfg'], c))
    # required inputs from the reference: supply until nothing is missing
    need = {}
    for _ in range(200):
        try:
            rc.evaluate(need)
            break
        except ref.Missing as m:
            need[str(m)] = base(str(m))
    req = sorted(need)
    if list(c.required_inputs) != req:
        fail('{}: required {} expected {}'.format(case['cfg'],
                                                  c.required_inputs, req))
    if c.solvable and req:
        fail('{}: solvable without inputs'.format(case['cfg']))
    vectors = []
    b = {n: base(n) for n in req}
    if case['part'] == 'one':
        vectors.append(b)
        for n in req:
            vectors.append(dict(b, **{n: alt(n)}))
    elif case['part'] == 'pairs':
        for j, (n, m) in enumerate(itertools.combinations(req, 2)):
            if j % 4 == case['i']:
                vectors.append(dict(b, **{n: alt(n, 1), m: alt(m)}))
    else:
        n = min(len(req), 10)
        grid = np.array(list(itertools.product((0, 1), repeat=n)))
        v = {}
        for i, name in enumerate(req):
            col = grid[:, i % n] if i < n else grid[:, (i * 3) % n]
            v[name] = np.where(col, alt(name), base(name))
        vectors.append(v)
    for v in vectors:
        with np.errstate(all='ignore'):
            want, _ = rc.evaluate(v)
            w32 = rc.evaluate({k: np.asarray(x, np.float32)
                               for k, x in v.items()})[0] \
                if case['part'] == 'array' else None
            st, out = ctx.call(c.evaluate, dict(v))
        ctx.state([case, sorted((k, str(x)) for k, x in v.items())])
        if st == 'err':
            fail('{} at {}: {!r}'.format(case['cfg'], v, out))
        for n, w in want.items():
            got = config_value(c, out, n)
            if isinstance(got, (Equation, str)):
                fail('{}: no value of {}'.format(case['cfg'], n))
            if w32 is None:
                good = scalar_close(got, w, 1e-9) if not np.ndim(w) else \
                    close(got, w, 1e-6)
            else:
                w, x = np.asarray(w, float), np.asarray(w32[n], float)
                gt = np.asarray(got, float)
                tol = 1e-4 * np.abs(w) + 50 * np.abs(w - x) + 1e-12
                good = gt.shape == w.shape and bool(
                    np.all((np.abs(gt - w) <= tol)
                           | (np.isnan(gt) & np.isnan(w))
                           | (gt == w) | ~np.isfinite(x)))
            if not good:
                fail('{} at {}: {} = {!r}, expected {!r}'.format(
                    case['cfg'], v, n, got, w))
            ctx.outcome('config entry')
        extra = set(out) - set(want)
        if extra:
            fail('{}: unexpected outputs {}'.format(case['cfg'], extra))
