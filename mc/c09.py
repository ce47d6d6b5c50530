"""Every set of available powers / years (up to a bound, in several file
orders) x every request x all 16 switch combinations x every route (group,
nested group, directory, merged group or directory, key arithmetic, config
operand): the retrieved
equation must be the exact one, else on the straight line through the two
nearest, else the nearest, else KeyError, as the switches say; names with
other bases, look-alikes and names with both patterns are mixed in."""
import itertools
import os
import re
from mc.common import *

POWERS = ['0', '2', '3', '6', '10', '15']
YEARS = ['1800', '1999', '2015', '2020', '2200']
RQ_P = ['0', '1', '2', '4', '5', '8', '012', '20', '300']
RQ_Y = ['1799', '1800', '1900', '2010', '2017', '2020', '2100', '2201']
MIX = ['a_3MW', 'a_10mw', 'a_2015', 'a_2020', 'ab_4MW', 'A_5MW', 'b_a_6MW',
       'a_3MW_2015', 'a_6MW_2025', 'a_2015_3MW', 'a_2020_9MW', 'a_3MW_3MW',
       'a_2015_2015', 'a_gt10MW', 'a2015', 'a_MW', 'a_5MWx', 'a_1500',
       'a_3', 'a__7MW', 'a_3000', 'a_20150', 'a_3.MW']
MIX = [m for m in MIX if '.' not in m]
BIG = ['3', '4001', '4002', '4004', '70000', '1000003']
RQ_M = ['a_4MW', 'a_4Mw', 'a_2017', 'ab_5MW', 'A_6MW', 'b_a_7MW',
        'a_3MW_2016', 'a_7MW_2016', 'a_2015_4MW', 'a_2020_4MW', 'a_3MW_4MW',
        'a_2015_2016', 'a_gt9MW', 'a2016', 'a_MW', 'a_6MWx', 'a_1501', 'a_4',
        'a__8MW', 'a_2999', 'a_20151', 'c_4MW', 'c_2017', 'a', 'zz',
        '_4MW', '_2017', 'a_3MW_', 'a_2015_']
ROUTES = ['group', 'nest1', 'nest2', 'same', 'file', 'dir', 'deepdir', 'var',
          'gsum', 'gsumnest', 'gsumfile', 'dsum', 'dsumdeep']
FLAGS = list(itertools.product((False, True), repeat=4))
BOUNDS = {
    'quick': 'all subsets of 6 powers and of 5 years in 2 orders x all '
             'requests x 16 switch combinations x group and directory '
             'routes, also of 6 small and very large powers; directory '
             'routes; all pairs and triples of mixed names; all routes incl. '
             'key math and configs for selected sets; ladders of up to 20',
    'thorough': 'the same with every route for every set and all quadruples '
                'of mixed names'}
CASE_LIMIT = 30


def cases(tier):
    deep = tier == 'thorough'
    for vals, kind in ((POWERS, 'P'), (YEARS, 'Y')):
        for r in range(0, len(vals) + 1):
            for sub in itertools.combinations(vals, r):
                keys = ['a_{}{}'.format(v, 'MW' if kind == 'P' else '')
                        for v in sub]
                for order in (0, 1):
                    k = keys[::-1] if order else keys
                    rts = ROUTES if deep else (
                        ['group', 'dir'] if r > 2 or r == 0 else ROUTES)
                    for rt in rts:
                        for form in (0, 1):
                            yield {'keys': k, 'rq': kind, 'route': rt,
                                   'form': form}
    for r in (1, 2, 3, 4) if deep else (1, 2, 3):
        for n, sub in enumerate(itertools.combinations(MIX, r)):
            yield {'keys': list(sub if n % 2 else sub[::-1]), 'rq': 'M',
                   'route': ROUTES[n % len(ROUTES)], 'form': n % 2}
    for n in range(2, 21):
        for step in (1, 7):
            for order in range(3):
                ks = ['a_{}MW'.format(2 + step * ((i * (1, -1, 7)[order]) % n
                                                  if n != 7 and n != 14
                                                  or order < 2 else i))
                      for i in range(n)]
                if len(set(ks)) == n:
                    yield {'keys': ks, 'rq': 'L', 'route': 'group', 'form': 1}
                    yield {'keys': [k.replace('MW', '').replace('a_', 'a_2')
                                    if 0 else 'a_' + str(1990 + int(
                                        k[2:-2])) for k in ks],
                           'rq': 'LY', 'route': 'dir', 'form': 0}
    # large numbers
    for r in range(1, len(BIG) + 1):
        for n, sub in enumerate(itertools.combinations(BIG, r)):
            ks = ['a_%sMW' % v for v in sub]
            for k in (ks, ks[::-1]) if r > 1 else (ks,):
                for form in (0, 1):
                    yield {'keys': k, 'rq': 'B', 'form': form,
                           'route': ('group', 'dir')[n % 2]}
    # operands of key expressions and of config expressions
    sets = [['a_3MW'], ['a_3MW', 'a_6MW'], ['a_3MW', 'a_6MW', 'a_15MW'],
            ['a_2015'], ['a_2015', 'a_2020'], ['a_2015', 'a_2020', 'a_2030'],
            ['a_3MW', 'a_6MW', 'a_2015', 'a_2020'],
            ['a_3MW', 'a_2015'], ['a_3MW', 'a_2015', 'a_2020'],
            ['a_6MW', 'a_3MW', 'a_2015'], []]
    for s in sets:
        for rt in ('kgroup', 'kdir', 'cfg', 'cfgmath', 'cfggroup',
                   'cfggroupmath', 'cfgdir', 'cfgswitch'):
            for form in (0, 1):
                yield {'keys': s, 'rq': 'E', 'route': rt, 'form': form}


def pattern(key):
    """-> (kind, base, value) or None; independent reading of the patterns"""
    i = key.rfind('_')
    if i < 0:
        return None
    base, tail = key[:i], key[i + 1:]
    if tail[-2:].lower() == 'mw' and tail[:-2] and \
            all(c in '0123456789' for c in tail[:-2]):
        return 'P', base, int(tail[:-2])
    if len(tail) == 4 and all(c in '0123456789' for c in tail) and \
            1800 <= int(tail) <= 2200:
        return 'Y', base, int(tail)
    return None


def expected(values, req, flags):
    """values: {key: number} -> list of admissible values ([] = KeyError)"""
    if req in values:
        return [values[req]], 'exact'
    p = pattern(req)
    if p is None:
        return [], 'KeyError'
    ip, np_, iy, ny = flags
    interp, nearest = (ip, np_) if p[0] == 'P' else (iy, ny)
    if not (interp or nearest):
        return [], 'KeyError'
    pts = []
    for k, v in values.items():
        q = pattern(k)
        if q and q[:2] == p[:2]:
            pts.append((abs(q[2] - p[2]), q[2], v))
    if not pts:
        return [], 'KeyError'
    pts.sort()
    near = [t for t in pts if t[0] == pts[0][0]]
    if not interp or len(pts) == 1:
        return [t[2] for t in near], 'nearest' if not interp else 'only one'
    out = []
    for a, b in itertools.combinations(pts, 2):
        # the two nearest: nothing outside of the pair is strictly nearer
        rest = [t for t in pts if t is not a and t is not b]
        if all(t[0] >= max(a[0], b[0]) for t in rest):
            out.append(a[2] + (b[2] - a[2]) * (p[2] - a[1]) / (b[1] - a[1]))
    return out, 'line'


X = 1.75


def formula(i, form):
    c = round(3.5 + 2.25 * i * i - 1.5 * i, 4)
    return ('{} * x + {}'.format(c, i - 1.25), c * X + i - 1.25) if form \
        else (c, c)


def requests(case):
    rq = case['rq']
    if rq == 'P':
        return ['a_%sMW' % r for r in RQ_P] + ['a_5mw', 'a_2016', 'b_5MW',
                                               'a_4.5MW', 'a_xMW', 'a_MW']
    if rq == 'Y':
        return ['a_' + r for r in RQ_Y] + ['a_5MW', 'b_2016', 'a_20161']
    if rq == 'M':
        return [r for r in RQ_M]
    if rq == 'B':
        return ['a_%dMW' % r for r in (4, 130, 257, 2000, 4000, 4003, 4005,
                                       69998, 1000001, 1000004)]
    if rq == 'L':
        return ['a_%dMW' % r for r in (1, 2, 9, 30, 150)]
    return ['a_%d' % r for r in (1990, 1992, 2001, 2060, 2140)]


def kw(flags):
    return dict(zip(('interp_extrap_power', 'use_nearest_power',
                     'interp_extrap_year', 'use_nearest_year'), flags))


def run(case, ctx):
    route, form, keys = case['route'], case['form'], case['keys']
    text, values = {}, {}
    for i, k in enumerate(keys):
        text[k], values[k] = formula(i, form)
    if case['rq'] == 'E':
        return run_expr(case, ctx, text, values)
    if route == 'var':
        text = {k: formula(i, 0)[0] for i, k in enumerate(keys)}
        values = dict(text)
    disk = None
    if route in ('file', 'dir', 'deepdir', 'var', 'gsumfile', 'dsum',
                 'dsumdeep'):
        disk = ctx.fresh_dir()
        other = {'a_1MW': 99.0, 'a_2018': 98.0, 'b_1MW': 97.0}
        t = {'g.json': ('json', text or {'q': 1}), 'z.json': ('json', other)}
        if route == 'var':
            t = {'variables.json': ('json', text or {'q': 1}),
                 'z.json': ('json', other)}
        write_tree(disk, t if route != 'deepdir' else
                   {'a_2016': {'s': t}, 'z.json': ('json', other)})
        if route.startswith('dsum'):
            write_tree(disk, {'d': {'g.json': t['g.json'], 's': {
                'g.json': t['g.json']}}, 'empty': {'q.json': (
                    'json', {'q': 1})}})
    for flags in FLAGS:
        f = kw(flags)
        pre = ''
        if route == 'group':
            obj = EquationGroup(dict(text), **f)
        elif route == 'nest1':
            obj = EquationGroup({'s': dict(text), 'a_1MW': 99, 'a_2018': 98},
                                **f)
            pre = 's::'
        elif route == 'nest2':
            obj = EquationGroup({'s': {'t': dict(text), 'a_1MW': 99},
                                 'a_2018': 98}, **f)
            pre = 's::t::'
        elif route == 'same':
            # the name asked for also is the name of a group on the path
            obj = None
        elif route == 'file':
            obj = EquationGroup(os.path.join(disk, 'g.json'), **f)
        elif route == 'gsum':
            obj = EquationGroup({'q': 1}, **f) + dict(text)
        elif route == 'gsumnest':
            obj = EquationGroup({'q': 1}, **f) + {'s': {'t': dict(text)}}
            pre = 's::t::'
        elif route == 'gsumfile':
            obj = EquationGroup({'q': 1}, **f) + os.path.join(disk, 'g.json')
        elif route.startswith('dsum'):
            obj = EquationDirectory(os.path.join(disk, 'empty'), **f) \
                + os.path.join(disk, 'd')
            pre = 's::g::' if route == 'dsumdeep' else 'g::'
        else:
            obj = EquationDirectory(disk, **f)
            pre = {'dir': 'g::', 'deepdir': 'a_2016::s::g::',
                   'var': 'variables::'}[route]
        for req in requests(case):
            if route == 'same':
                obj = EquationGroup({req: dict(text), 'k': 1}, **f)
                pre = req + '::'
            ctx.state([sorted(keys), req, flags, form])
            want, how = expected(values, req, flags)
            st, got = ctx.call(lambda: obj[pre + req])
            judge(case, flags, pre + req, st, got, want, how, ctx)
            if not want:
                st, got = ctx.call(obj.get, pre + req, 'no such')
                if st == 'err' or got != 'no such':
                    fail('{} {}: get({}) gives {!r}, expected the fallback'
                         .format(case, flags, pre + req, got))
            # not the last step of the path
            if pre == '' and req not in values:
                st, got = ctx.call(lambda: obj[req + '::x'])
                if not (st == 'err' and isinstance(got, KeyError)):
                    fail('{} {}: {}::x gives {!r}, expected KeyError'.format(
                        case, flags, req, got))
        # the same one step at a time
        if pre and route != 'same':
            sub = obj
            for part in pre.split('::')[:-1]:
                sub = sub[part]
            for req in requests(case):
                want, how = expected(values, req, flags)
                st, got = ctx.call(lambda: sub[req])
                judge(case, flags, 'step by step ' + pre + req, st, got, want,
                      how, ctx)


def num(v):
    return v.eval(x=X) if isinstance(v, Equation) else v


def judge(case, flags, req, st, got, want, how, ctx):
    ctx.outcome(how)
    if not want:
        if st != 'err' or not isinstance(got, KeyError):
            fail('{} {}: {} gives {!r}, expected KeyError'.format(
                case, flags, req, got))
        return
    if st == 'ok':
        st, val = ctx.call(num, got)
    if st == 'err' or not any(scalar_close(val, w, 1e-7) for w in want):
        fail('{} {}: {} gives {!r} = {!r}, expected {} {}'.format(
            case, flags, req, got, locals().get('val'), how, want))


EXPRS = [('{0}', lambda a, b: a), ('{0} + {1}', lambda a, b: a + b),
         ('2 * {0}', lambda a, b: 2 * a), ('({0} - {1}) / 3',
                                           lambda a, b: (a - b) / 3),
         ('{0} ** 2 - ({1} + 1)', lambda a, b: a ** 2 - (b + 1)),
         ('{0} * ({1})', lambda a, b: a * b)]
ER = ['a_3MW', 'a_4MW', 'a_20MW', 'a_2015', 'a_2017', 'a_2100']


def run_expr(case, ctx, text, values):
    route = case['route']
    disk = ctx.fresh_dir()
    write_tree(disk, {'g.json': ('json', dict(text, q=5)),
                      'd': {'g.json': ('json', dict(text, q=5))}})
    for flags in FLAGS:
        f = kw(flags)
        if route == 'kgroup':
            objs = [(EquationGroup(dict(text, q=5), **f), ''),
                    (EquationGroup({'s': dict(text, q=5)}, **f), 's::')]
        elif route == 'kdir':
            d = EquationDirectory(disk, **f)
            objs = [(d, 'g::'), (d, 'd::g::')]
        else:
            objs = [(None, 'g::'), (None, 'd::g::')]
        for obj, pre in objs:
            for expr, fun in EXPRS:
                for r1 in ER:
                    for r2 in ([r1] if '{1}' not in expr else
                               ER if obj is not None or
                               ctx.tier == 'thorough' else ER[1::3]):
                        w1, h1 = expected(values, r1, flags)
                        w2, h2 = expected(values, r2, flags)
                        if '{1}' not in expr:
                            w2 = [0]
                        want = [fun(a, b) for a in w1 for b in w2]
                        ctx.state([sorted(values), expr, r1, r2, flags])
                        if obj is not None:
                            key = expr.format(pre + r1, pre + r2)
                            st, got = ctx.call(lambda: obj[key])
                            judge(case, flags, key, st, got, want,
                                  'expression', ctx)
                        elif (expr in ('{0}', '{0} * ({1})')) != (
                                'math' in route):
                            config(case, ctx, route, disk, pre, f, expr, r1,
                                   r2, want)


def config(case, ctx, route, disk, pre, f, expr, r1, r2, want):
    cfg = {'equation_directory': disk}
    if 'group' in route:
        cfg['grp'] = pre[:-2]
        pre = 'grp::'
    elif route == 'cfgdir':
        if pre != 'g::':
            cfg['dd'] = 'd'
            pre = 'dd::g::'
    cfg['y'] = expr.format(pre + r1, pre + r2)
    kwargs = dict(f)
    if route == 'cfgswitch':
        cfg.update(f)
        kwargs = {}

    def make():
        c = NrwalConfig(cfg, **kwargs)
        return c, c.evaluate({'x': X})
    st, got = ctx.call(make)
    ctx.outcome('config')
    if not want:
        if st == 'ok' and got[1].get('y') is not None:
            fail('{} {} {}: y = {!r}, expected a refusal'.format(
                case, cfg, kwargs, got[1].get('y')))
        return
    if st == 'err':
        fail('{} {} {}: {!r}, expected {}'.format(case, cfg, kwargs, got,
                                                  want))
    c, outs = got
    v = config_value(c, outs, 'y')
    if not any(scalar_close(v, w, 1e-7) for w in want):
        fail('{} {} {}: y = {!r}, expected {}'.format(case, cfg, kwargs, v,
                                                      want))
