"""Every pair of input kinds (Python and numpy scalars of every integer and
float type; arrays of every type in several shapes, memory layouts and lengths;
data tables) x every elementwise formula x route (equation, group, config
arithmetic, config with library equations): the result must have the shape of
the input and at every position the value the scalars there give (within single
precision), and the caller's arrays must not change."""
import itertools
import os
from mc.common import *

FORMULAS = [
    'x + y', 'x - y * 2', 'x / y', 'y / x', 'x ** y', 'x ** -1',
    'x ** 2 - y', '-x + y', 'np.maximum(x, y)', 'np.where(x > y, x, y * 2)',
    'np.sqrt(np.abs(x)) + y', '(x > 2) * y + (x <= 2) * 3',
    'np.exp(-x / 4) * y', 'np.clip(x, a_min=1.5, a_max=y + 1)', 'x % y',
    '2 ** -x', 'x * 100000 * y * 100000', '200 + x * y', 'x - 10 - y',
    '7 / x', 'np.power(x, -2) * y', 'np.round(x / y)', 'x // y',
    'y * (x - 1) / (x + y)', '1e3 * x - 2.5 * y', 'x * x * x * x * y * 9999',
    'np.log(x * y)', 'np.minimum(x, 3) ** 0.5', 'np.negative(x) + y', '+x',
    'np.floor(x / y) - np.ceil(y / x)', 'np.logical_and(x > 1, y > 1) * x']
VX = [3, 2, 7, 5, 100, 1, 11, 4]
VY = [4, 2, 1, 3, 9, 8, 5, 2]
SX = [-3, 2, -7, 5, -100, 1, 11, -4]
INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
        'uint64']
FLTS = ['float32', 'float64']
SCAL = ['int', 'float'] + ['s:' + d for d in INTS + FLTS]
ARRS = ['a4:' + d for d in INTS + FLTS]
SHAPES = ['a1', 'a8', 'a22', 'a222', 'a0d', 'a0', 'a4s', 'a4r', 'a22f',
          'a1000', 'a41', 'a14', 'a11', 'a24', 'a114', 'a421']
FX = [0.5, float('nan'), 2.25, float('inf'), -1.75, 0.0, -2.5, 1.0]
FY = [1.5, 2.0, -0.75, 4.0, 8.0, float('nan'), 0.25, 1.0]
BOUNDS = {
    'quick': '{} formulas x all pairs of {} scalar kinds and 4-element arrays '
             'of 10 types (also signed values), all pairs of 16 shapes / '
             'layouts x 4 types where they fit, also with fractions, zeros, infinities and NaN, '
             '4 routes, data tables'.format(
                 len(FORMULAS), len(SCAL)),
    'thorough': 'the same with every type for every shape'}
CASE_LIMIT = 30


def cases(tier):
    for a, b in itertools.product(SCAL + ARRS, repeat=2):
        for sg in (0, 1):
            if sg and 'uint' in a:
                continue
            yield {'x': a, 'y': b, 'sg': sg}
    types = INTS + FLTS if tier == 'thorough' else ['int32', 'int64',
                                                    'float32', 'float64']
    for sh in SHAPES:
        for d1, d2 in itertools.product(types, repeat=2):
            yield {'x': sh + ':' + d1, 'y': sh + ':' + d2, 'sg': 0}
        for d1 in types:
            for s in ('int', 'float', 's:int64', 'a0d:int64'):
                yield {'x': sh + ':' + d1, 'y': s, 'sg': 0}
                yield {'x': s, 'y': sh + ':' + d1, 'sg': 0}
        for d1, d2 in itertools.product(FLTS, repeat=2):
            yield {'x': sh + ':' + d1, 'y': sh + ':' + d2, 'sg': 2}
    for a, b in itertools.product(INTS + FLTS, repeat=2):
        for n in (1, 4, 8):
            yield {'df': [a, b], 'n': n, 'sg': 0}
            if a in FLTS and b in FLTS:
                yield {'df': [a, b], 'n': n, 'sg': 2}
    # masks
    for sh in ('a4', 'a22', 'a1', 'a8', 'a41', 'a14', 'a24'):
        for d in types:
            yield {'mask': sh, 'y': d}


def make(kind, vals):
    """-> value of the kind"""
    if kind == 'int':
        return int(vals[0])
    if kind == 'float':
        return float(vals[0])
    sh, d = kind.split(':')
    if sh == 's':
        return np.dtype(d).type(vals[0])
    if sh == 'a0d':
        return np.array(vals[0], dtype=d)
    n = {'a1': 1, 'a4': 4, 'a8': 8, 'a22': 4, 'a222': 8, 'a0': 0, 'a4s': 8,
         'a4r': 4, 'a22f': 4, 'a1000': 1000, 'a41': 4, 'a14': 4, 'a11': 1,
         'a24': 8, 'a114': 4, 'a421': 8}[sh]
    v = np.array([vals[i % 8] for i in range(n)], dtype=d)
    if sh in ('a22', 'a22f'):
        v = v.reshape(2, 2)
    if sh in ('a41', 'a14', 'a11', 'a24', 'a114', 'a421'):
        v = v.reshape([int(i) for i in sh[1:]])
    if sh == 'a22f':
        v = np.asfortranarray(v)
    if sh == 'a222':
        v = v.reshape(2, 2, 2)
    if sh == 'a4s':
        v = v[::-2]
    if sh == 'a4r':
        v.flags.writeable = False
    return v


def setup(ctx):
    d = os.path.join(ctx.scratch, 'lib')
    os.mkdir(d)
    g = {'f%d' % i: f for i, f in enumerate(FORMULAS)}
    write_tree(d, {'g.json': ('json', g)})
    c = ctx.cache
    c['eqs'] = [Equation(f) for f in FORMULAS]
    c['grp'] = EquationGroup({'n%d' % i: f for i, f in enumerate(FORMULAS)})
    c['cfg_lib'] = NrwalConfig(dict(
        [('n%d' % i, 'g::f%d' % i) for i in range(len(FORMULAS))],
        equation_directory=d))
    c['math'] = [i for i, f in enumerate(FORMULAS)
                 if not any(s in f for s in (' % ', '//', '(x >', '+x'))]
    c['cfg_math'] = NrwalConfig(dict(
        [('n%d' % i, FORMULAS[i]) for i in c['math']],
        equation_directory=d))
    c['cfg_chain'] = NrwalConfig({
        'equation_directory': d, 'b': 'a * 2 - y', 'a': 'x + y',
        'c': 'g::f2 + b', 'd': 'np.maximum(b, c) ** 2', 'e': 'd'})


def ref(f, x, y):
    with np.errstate(all='ignore'):
        try:
            return np.float64(eval(f, {'np': np, 'x': np.float64(x),
                                       'y': np.float64(y)}))
        except ZeroDivisionError:
            return np.float64('nan')


def expect(f, x, y):
    x, y = np.asarray(x), np.asarray(y)
    shape = np.broadcast_shapes(x.shape, y.shape)
    out = np.empty(shape)
    for i in np.ndindex(*shape):
        out[i] = ref(f, x[i] if x.shape else x[()], y[i] if y.shape
                     else y[()])
    return out


def check(where, got, want, shape):
    g = np.asarray(got)
    if g.shape != shape:
        fail('{}: shape {} ({!r}), expected {}'.format(where, g.shape, got,
                                                       shape))
    if g.dtype == object:
        fail('{}: object result {!r}'.format(where, got))
    ok = np.isclose(g.astype(np.float64), want, rtol=3e-6, atol=1e-9,
                    equal_nan=True)
    if not ok.all():
        fail('{}: {!r}, expected {!r}'.format(where, got, want))


def uses(f):
    import re
    return set(re.findall(r'(?<![\w.])[xy](?!\w)', f))


def run(case, ctx):
    c = ctx.cache
    if 'mask' in case:
        return run_mask(case, ctx)
    vx, vy = ((VX, VY), (SX, VY), (FX, FY))[case['sg']]
    if 'df' in case:
        n = case['n']
        x = np.array((vx * 1)[:n], dtype=case['df'][0])
        y = np.array(vy[:n], dtype=case['df'][1])
        inputs = pd.DataFrame({'x': x, 'y': y})
    else:
        x, y = make(case['x'], vx), make(case['y'], vy)
        inputs = {'x': x, 'y': y}
    keep = {k: np.array(v, copy=True) for k, v in inputs.items()}
    ctx.state(case)
    wants = {}
    for i, f in enumerate(FORMULAS):
        u = uses(f)
        xx = keep['x'] if 'x' in u else keep['x'].flat[0] \
            if keep['x'].size else 1
        yy = keep['y'] if 'y' in u else keep['y'].flat[0] \
            if keep['y'].size else 1
        wants[i] = expect(f, xx, yy)
    if 'df' not in case:
        for i, f in enumerate(FORMULAS):
            kw = {k: inputs[k] for k in uses(f)}
            for route, eq in (('Equation', c['eqs'][i]),
                              ('group', c['grp']['n%d' % i])):
                st, got = ctx.call(eq.evaluate, **kw)
                if st == 'err':
                    fail('{} {} {}: {!r}'.format(case, route, f, got))
                check('{} {} {}'.format(case, route, f), got, wants[i],
                      wants[i].shape)
                ctx.outcome('equal')
    for route, names in (('cfg_lib', range(len(FORMULAS))),
                         ('cfg_math', c['math'])):
        cfg = c[route]
        cfg.inputs = None
        st, out = ctx.call(cfg.evaluate, inputs)
        if st == 'err':
            fail('{} {}: {!r}'.format(case, route, out))
        for i in names:
            check('{} {} {}'.format(case, route, FORMULAS[i]),
                  out['n%d' % i], wants[i], wants[i].shape)
            ctx.outcome('equal')
    cfg = c['cfg_chain']
    cfg.inputs = None
    st, out = ctx.call(cfg.evaluate, inputs)
    if st == 'err':
        fail('{} chain: {!r}'.format(case, out))
    xf, yf = keep['x'].astype(float), keep['y'].astype(float)
    np.seterr(all='ignore')
    a = xf + yf
    b = a * 2 - yf
    cc = xf / yf + b
    d = np.maximum(b, cc) ** 2
    for k, w in zip('abcde', (a, b, cc, d, d)):
        check('{} chain {}'.format(case, k), out[k], np.asarray(w),
              np.shape(w))
    for k, v in keep.items():
        now = np.asarray(inputs[k])
        if now.dtype != v.dtype or not np.array_equal(
                now, v, equal_nan=v.dtype.kind == 'f'):
            fail('{}: input {} was changed to {!r}'.format(case, k,
                                                           inputs[k]))


def run_mask(case, ctx):
    m = make(case['mask'] + ':int32', [1, 0, 1, 1, 0, 0, 1, 0]).astype(bool)
    y = make(case['mask'] + ':' + case['y'], VY)
    keep = m.copy()
    ctx.state(case)
    want = np.where(m, y.astype(float), y.astype(float) * 3)
    st, got = ctx.call(Equation('np.where(m, y, y * 3)').eval, m=m, y=y)
    if st == 'err':
        fail('{}: {!r}'.format(case, got))
    check(str(case), got, want, want.shape)
    cfg = NrwalConfig({'equation_directory': os.path.join(ctx.scratch, 'lib'),
                       'a': 'np.where(m, y, y * 3)'})
    st, got = ctx.call(cfg.evaluate, {'m': m, 'y': y})
    if st == 'err':
        fail('{}: config {!r}'.format(case, got))
    check(str(case) + ' config', got['a'], want, want.shape)
    if m.ndim == 1:
        st, got = ctx.call(cfg.evaluate, pd.DataFrame({'m': m, 'y': y}))
        if st == 'err':
            fail('{}: table {!r}'.format(case, got))
        check(str(case) + ' table', got['a'], want, want.shape)
        cfg.inputs = None
        st, got = ctx.call(cfg.evaluate, pd.DataFrame({'y': y, 'm': m}))
        if st == 'err':
            fail('{}: new table {!r}'.format(case, got))
        check(str(case) + ' new table', got['a'], want, want.shape)
    if m.dtype != bool or not np.array_equal(m, keep):
        fail('{}: mask was changed'.format(case))
    ctx.outcome('mask')
