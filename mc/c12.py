"""Every combination of config representation (dictionary, yaml, yml, json),
placement of entries behind pointers (chains of up to 4 files in several
folder layouts, files pointing at each other), lookup switches in the config or
as arguments, and route and type of inputs, must give the same results; every
malformed pointer must be refused on loading."""
import itertools
import os
from mc.common import *

X, Y = 1.75, -2.5
XS, YS = [1.0, 2.0, 3.5], [4, -5, 6]
# entry -> (text, value as function of x, y)
ENTRIES = {
    'num': (5, lambda x, y: 5.0),
    'flt': (2.5e-3, lambda x, y: 2.5e-3),
    'nums': ('1e3', lambda x, y: 1000.0),
    'math': ('x * 2 - (y + num)', lambda x, y: x * 2 - (y + 5)),
    'neg': ('-x', lambda x, y: -x),
    'npy': ('np.maximum(x, y) + nums',
           lambda x, y: np.maximum(x, y) + 1000),
    'lib': ('g::e', lambda x, y: x * 3 + 10 - y),
    'libm': ('2 * g::e / num', lambda x, y: 2 * (x * 3 + 10 - y) / 5),
    'alias': ('math', lambda x, y: x * 2 - (y + 5)),
    'near': ('g::p_4MW', lambda x, y: x + 3 + 1.0),
    'year': ('g::q_2017 * 1', lambda x, y: 10 + 0.2 * 50),
}
NAMES = list(ENTRIES)
SW = {'interp_extrap_power': True, 'interp_extrap_year': True}
REPS = ['dict', 'yaml', 'yml', 'json']
LAYOUT = [('', ''), ('', 'sub'), ('sub', ''), ('sub/deep', 'other'), ('', 'up')]
BOUNDS = {
    'quick': '4 representations x 11 entry kinds behind pointer chains of '
             'length 0-4 x 5 folder layouts x 3 file types; all subsets of 5 '
             'entries behind pointers; 16 switch combinations x places x '
             'representations; dictionary and 10 kinds of data table x 4 routes x scalar / '
             'arrays of length 3 and 1; all '
             'malformed pointers x positions',
    'thorough': 'the same with every pair of entries, all mixes of file types '
                'and all layouts'}


def cases(tier):
    deep = tier == 'thorough'
    for rep in REPS:
        for sw in ('cfg', 'arg', 'both', 'mixed'):
            for it, route, arr in itertools.product(
                    ('dict', 'df'), ('init', 'set', 'eval', 'split'), (0, 1)):
                if it == 'df' and not arr:
                    continue
                for tab in range(len(TABLES)) if it == 'df' else (0,):
                    for n in (3, 1) if arr else (3,):
                        yield {'t': 'rep', 'rep': rep, 'sw': sw, 'in': it,
                               'route': route, 'arr': arr, 'tab': tab,
                               'n': n}
    for name in NAMES:
        for depth in (1, 2, 3, 4):
            for li in range(len(LAYOUT)):
                exts = list(itertools.product(REPS[1:], repeat=depth + 1)) \
                    if deep and depth < 4 else [
                        [REPS[1 + (i + s) % 3] for i in range(depth + 1)]
                        for s in range(3)]
                for e in exts:
                    yield {'t': 'ptr', 'names': [name], 'depth': depth,
                           'layout': li, 'ext': list(e)}
    some = ['num', 'math', 'npy', 'libm', 'alias']
    for r in (2, 3, 4, 5):
        for sub in itertools.combinations(some, r):
            for depth in (1, 2):
                for li in range(len(LAYOUT)):
                    for shared in (0, 1):
                        yield {'t': 'ptr', 'names': list(sub),
                               'depth': depth, 'layout': li,
                               'shared': shared,
                               'ext': ['yaml', 'json', 'yml'][:depth + 1]}
    if deep:
        for sub in itertools.combinations(NAMES, 2):
            for depth in (1, 2, 3):
                for li in range(len(LAYOUT)):
                    yield {'t': 'ptr', 'names': list(sub), 'depth': depth,
                           'layout': li,
                           'ext': ['yaml', 'json', 'yml', 'yaml'][:depth + 1]}
    for ext in REPS[1:]:
        for name in NAMES:
            yield {'t': 'mutual', 'name': name, 'ext': ext}
    for flags in itertools.product((0, 1), repeat=4):
        for rep in REPS:
            for style in ('bool', 'int'):
                for req in ('p_4MW', 'p_6MW', 'q_2017', 'q_2020', 'q_2100'):
                    yield {'t': 'sw', 'flags': list(flags), 'rep': rep,
                           'req': req, 'style': style}
    for bad in BAD:
        for rep in REPS:
            for pos in (0, 1, 2):
                for depth in (0, 1):
                    yield {'t': 'bad', 'bad': bad, 'rep': rep, 'pos': pos,
                           'depth': depth}
    for depth in (0, 1, 2):
        for li in range(2):
            yield {'t': 'dictptr', 'depth': depth, 'li': li}


# data tables with the same contents for x and y
TABLES = [
    lambda x, y: pd.DataFrame({'x': x, 'y': y}),
    lambda x, y: pd.DataFrame({'x': x, 'y': y}, index=[2, 0, 1][:len(x)]),
    lambda x, y: pd.DataFrame({'x': x, 'y': y}, index=[9, 7, 3][:len(x)]),
    lambda x, y: pd.DataFrame({'x': x, 'y': y}, index=list('cab')[:len(x)]),
    lambda x, y: pd.DataFrame({'x': x, 'y': y}, index=[1, 1, 1][:len(x)]),
    lambda x, y: pd.DataFrame({'u': [7] * len(x), 'y': y, 'x': x}),
    lambda x, y: pd.DataFrame({'y': pd.Series(y), 'v': 0.5, 'x': x})[
        ['x', 'v', 'y']],
    lambda x, y: pd.DataFrame({'x': x, 'y': y, 'i': y}).set_index('i'),
    lambda x, y: pd.DataFrame({'x': x, 'y': y})[::-1][::-1],
    lambda x, y: pd.DataFrame({'x': x[::-1], 'y': y[::-1]})[::-1],
]
BAD = ['./nofile.yaml::k', './o.yaml::nokey', './o.yaml', 'o.yaml',
       './o.yaml::', './o.yaml::k::k', './o.yaml::k + 1', '2 * ./o.yaml::k',
       '(./o.yaml::k)', './o.yaml::k * 2', './o.yaml::k ** 2',
       './o.yaml::k - 1', './o.yaml::k / 2', '-./o.yaml::k',
       './o.yaml::k + ./o.yaml::k', './o.json::k', '::k', './sub.yaml/::k',
       'np.maximum(./o.yaml::k, 1)', './o.yaml::x', './o.yaml:k',
       './o.yaml::equation_directory', './self.yaml::loop']
BAD.remove('::k')


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    write_tree(d, {'g.json': ('json', {
        'e': 'x * 3 + w - y', 'p_3MW': 'x + 3', 'p_6MW': 'x + 6',
        'q_2015': 10, 'q_2020': 35}),
        'variables.json': ('json', {'w': 10.0})})
    ctx.cache['lib'] = d


def write(path, cfg):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    kind = 'json' if path.endswith('.json') else 'yaml'
    write_tree(os.path.dirname(path), {os.path.basename(path): (kind, cfg)})


def texts(names=NAMES):
    return {k: ENTRIES[k][0] for k in names}


def judge(case, ctx, cfg, kwargs, inputs=None, arr=0, names=NAMES,
          route='eval', also=(), n=3):
    x, y = (np.array(XS[:n]), np.array(YS[:n])) if arr else (X, Y)
    if inputs is None:
        inputs = {'x': x, 'y': y}
    if route == 'init':
        kwargs = dict(kwargs, inputs=inputs)
    st, c = ctx.call(NrwalConfig, cfg, **kwargs)
    if st == 'err':
        fail('{}: refused: {!r}'.format(case, c))
    if route == 'set':
        c.inputs = inputs
    elif route == 'split':
        c.inputs = inputs[['x']] if hasattr(inputs, 'columns') else {
            'x': inputs['x']}
        inputs = inputs[['y']] if hasattr(inputs, 'columns') else {
            'y': inputs['y']}
    st, out = ctx.call(c.evaluate, inputs) if route in ('eval', 'split') \
        else ctx.call(c.evaluate)
    if st == 'err':
        fail('{}: failed: {!r}'.format(case, out))
    for k in names:
        got = config_value(c, out, k)
        want = ENTRIES[k][1](x, y)
        if arr and np.shape(want):
            ok = np.shape(got) == np.shape(want) and np.allclose(
                got, want, rtol=1e-6)
        else:
            ok = scalar_close(got, want, 1e-6)
        if not ok:
            fail('{}: {} = {!r}, expected {!r}'.format(case, k, got, want))
    extra = set(out) - set(names) - set(also) | (set(names) - set(c.keys()))
    if extra:
        fail('{}: unexpected or missing entries {}'.format(case, extra))
    ctx.outcome('equal')


def run(case, ctx):
    t = case['t']
    lib = ctx.cache['lib']
    ctx.state(case)
    if t == 'rep':
        cfg = dict(texts(), equation_directory=lib)
        kw = {}
        if case['sw'] in ('cfg', 'both'):
            cfg.update(SW)
        if case['sw'] in ('arg', 'both'):
            kw.update(SW)
        if case['sw'] == 'mixed':
            cfg['interp_extrap_power'] = True
            kw['interp_extrap_year'] = True
        if case['rep'] != 'dict':
            p = os.path.join(ctx.fresh_dir(), 'c.' + case['rep'])
            write(p, cfg)
            cfg = p
        n = case['n']
        inputs = {'x': np.array(XS[:n]), 'y': np.array(YS[:n])} \
            if case['arr'] else {'x': X, 'y': Y}
        if case['in'] == 'df':
            inputs = TABLES[case['tab']](XS[:n], YS[:n])
        judge(case, ctx, cfg, kw, inputs, case['arr'], route=case['route'],
              n=n)
    elif t == 'ptr':
        run_ptr(case, ctx, lib)
    elif t == 'mutual':
        run_mutual(case, ctx, lib)
    elif t == 'sw':
        run_sw(case, ctx, lib)
    elif t == 'bad':
        run_bad(case, ctx, lib)
    else:
        d = ctx.fresh_dir()
        write(os.path.join(d, 'o.yaml'), {'k': 'x + 1'})
        cfg = {'equation_directory': lib, 'a': 'x + 2'}
        ptr = [os.path.join(d, 'o.yaml') + '::k', './o.yaml::k',
               'o.yaml::k'][case['depth']]
        if case['li']:
            cfg = dict(p=ptr, **cfg)
        else:
            cfg['p'] = ptr
        os.chdir(d)
        try:
            refused(case, ctx, cfg)
        finally:
            os.chdir(ctx.scratch)


def run_ptr(case, ctx, lib):
    root = ctx.fresh_dir()
    depth = case['depth']
    da, db = LAYOUT[case['layout']]
    dirs = [da if i % 2 == 0 else db for i in range(depth + 1)]
    files = [os.path.join(root, 'up' if d == 'up' else d, 'f%d.%s' % (i, e))
             for i, (d, e) in enumerate(zip(dirs, case['ext']))]
    cfg = dict(texts(), equation_directory=lib, **SW)
    names = case['names']
    for lvl in range(depth):
        here, there = files[lvl], files[lvl + 1]
        rel = os.path.relpath(there, os.path.dirname(here))
        if case['layout'] == 4 and lvl == 0:
            rel = there                      # absolute path
        elif not rel.startswith('.'):
            rel = './' + rel if lvl % 2 else rel
        other = {}
        for k in names:
            key = k if lvl % 2 or case.get('shared') else 'r_%d_%s' % (lvl, k)
            cur = k if lvl == 0 else keys[k]
            other[key] = cfg[cur]
            cfg[cur] = rel + '::' + key
        keys = {k: (k if lvl % 2 or case.get('shared')
                    else 'r_%d_%s' % (lvl, k)) for k in names}
        write(here, cfg)
        cfg = dict(other, unused='zz * 3', num2=4)
        if lvl % 2:
            cfg['equation_directory'] = '/nowhere'
    write(files[depth], cfg)
    judge(case, ctx, files[0], {})


def run_mutual(case, ctx, lib):
    """two files that point at each other, but not in a circle"""
    root = ctx.fresh_dir()
    a = os.path.join(root, 'a.' + case['ext'])
    b = os.path.join(root, 'b.' + case['ext'])
    cfg = dict(texts(), equation_directory=lib, **SW)
    text = cfg[case['name']]
    cfg[case['name']] = 'b.{}::q'.format(case['ext'])
    cfg['hidden'] = text
    write(a, cfg)
    write(b, {'q': './a.{}::hidden'.format(case['ext']), 'r': 3})
    judge(case, ctx, a, {}, names=NAMES, also=['hidden'])


def run_sw(case, ctx, lib):
    ip, np_, iy, ny = case['flags']
    cast = bool if case['style'] == 'bool' else int
    flags = dict(zip(('interp_extrap_power', 'use_nearest_power',
                      'interp_extrap_year', 'use_nearest_year'),
                     map(cast, case['flags'])))
    req = case['req']
    interp, near = (ip, np_) if req[0] == 'p' else (iy, ny)
    exact = {'p_6MW': X + 6, 'q_2020': 35.0}
    line = {'p_4MW': X + 4, 'q_2017': 20.0, 'q_2100': 435.0}
    nearest = {'p_4MW': X + 3, 'q_2017': 10.0, 'q_2100': 35.0}
    want = exact.get(req)
    if want is None and interp:
        want = line[req]
    elif want is None and near:
        want = nearest[req]
    res = []
    for place in ('cfg', 'arg'):
        cfg = {'equation_directory': lib, 'a': 'g::' + req, 'b': 'a * 2'}
        kw = flags
        if place == 'cfg':
            cfg.update(flags)
            kw = {}
        if case['rep'] != 'dict':
            p = os.path.join(ctx.fresh_dir(), 'c.' + case['rep'])
            write(p, cfg)
            cfg = p

        def go():
            c = NrwalConfig(cfg, **kw)
            out = c.evaluate({'x': X, 'y': Y})
            return config_value(c, out, 'a'), config_value(c, out, 'b'), \
                sorted(c.keys())
        st, got = ctx.call(go)
        if want is None:
            if st == 'ok':
                fail('{} {}: {!r}, expected a refusal'.format(case, place,
                                                              got))
        elif st == 'err' or not scalar_close(got[0], want, 1e-6) or \
                not scalar_close(got[1], 2 * want, 1e-6):
            fail('{} {}: {!r}, expected {}'.format(case, place, got, want))
        elif got[2] != ['a', 'b']:
            fail('{} {}: entries {}'.format(case, place, got[2]))
    ctx.outcome('switch')


def refused(case, ctx, cfg):
    st, got = ctx.call(NrwalConfig, cfg)
    if st == 'ok':
        fail('{}: {} was accepted: {}'.format(case, cfg, got))
    ctx.outcome('refused')


def run_bad(case, ctx, lib):
    root = ctx.fresh_dir()
    write(os.path.join(root, 'o.yaml'), {'k': 'x + 1', 'm': 3,
                                         'equation_directory': lib})
    write(os.path.join(root, 'self.yaml'), {'loop': './self.yaml::loop'})
    items = [('a', 'x + 2'), ('b', 3)]
    items.insert(case['pos'], ('p', case['bad']))
    cfg = dict(items, equation_directory=lib)
    if case['depth']:
        # the malformed pointer is reached through a good one
        write(os.path.join(root, 'mid.yaml'), dict(items))
        cfg = {'a': 'x', 'pp': './mid.yaml::p', 'equation_directory': lib}
    os.chdir(root)
    try:
        if case['rep'] != 'dict':
            p = os.path.join(root, 'c.' + case['rep'])
            write(p, cfg)
            cfg = p
        refused(case, ctx, cfg)
    finally:
        os.chdir(ctx.scratch)
