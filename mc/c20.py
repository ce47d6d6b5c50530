"""Two threads run two programs on separate objects (or evaluate one shared
equation) under a controlled scheduler that stops a thread before any source
line (thorough: any bytecode) of NRWAL. All schedules with one preemption, and
for the small programs all with two, are executed, each in a process of its own
so that nothing is warmed up; the results (or errors) of both threads must be
those of running the programs one after the other."""
import copy
import os
import pickle
import sys
import threading
from mc.common import *
from mc import core

SRC = os.path.realpath(os.path.join(core.REPO, 'NRWAL')) + os.sep
CASE_LIMIT = 60
BOUNDS = {
    'quick': 'two threads, source-line granularity. One preemption: small '
             'program pairs before every executed line, other pairs before '
             'the first and last execution of every source line (the largest '
             'before the first). Two preemptions: pairs that evaluate single '
             'equations, before the first execution of every line',
    'thorough': 'one preemption before every executed line of every pair and '
                'at bytecode granularity (small pairs everywhere, others at '
                'the first, second and last execution of every instruction); '
                'two preemptions before the first (small pairs: first, second '
                'and last) execution of every line of every pair'}
ASSUMPTIONS = ['threads switch at source lines of NRWAL (thorough: '
               'bytecodes), not inside yaml, numpy, pandas or copy',
               'at most two preemptions']

LIBA = {'variables.json': ('json', {'w': 2.0, 'v': 0.5}),
        'f.json': ('json', {'e': 'x * w - v', 'c': 4.0, 'r': 'e + c',
                            't_3MW': 'x + 3', 't_9MW': 'x * 9',
                            's': {'u_2015': 1.5, 'u_2025': 7.5}}),
        'sub': {'g.json': ('json', {'e': 'x / v'}),
                'variables.json': ('json', {'v': 8.0})}}
LIBB = {'variables.json': ('json', {'w': -3.0, 'v': 11.0}),
        'f.json': ('json', {'e': 'x + w * v', 'c': 9.0, 'r': 'e / c',
                            't_3MW': 'x - 3', 't_9MW': 'x / 9',
                            's': {'u_2015': -2.5, 'u_2025': 3.25}}),
        'sub': {'g.json': ('json', {'e': 'x - v'}),
                'variables.json': ('json', {'v': 0.25})}}


def norm(v):
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, np.ndarray):
        return ['array'] + [float(x) for x in v.ravel()]
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if v is None or isinstance(v, str):
        return v
    return str(v)


# programs: build(libs) -> thread function -> result
def p_eval(text, dfl, kw, n=1):
    def prep(libs):
        e = Equation(text, name='same', default_variables=dict(dfl))

        def go():
            return [e.evaluate(**kw) for _ in range(n)] + [e.variables]
        return go
    return prep


def p_math(a, b, kw):
    def prep(libs):
        def go():
            x = Equation(a, default_variables={'p': 3.0})
            y = Equation(b, default_variables={'q': 4.0})
            z = (x - y) * x ** 2
            return [z.evaluate(**kw), z.variables, z.default_variables]
        return go
    return prep


def p_err(text, kw):
    def prep(libs):
        e = Equation(text)

        def go():
            return e.evaluate(**kw)
        return go
    return prep


def p_group(d, key, dfl, kw, **flags):
    def prep(libs):
        def go():
            g = EquationGroup(copy.deepcopy(d), **flags)
            g.set_default_variables(dict(dfl))
            e = g[key]
            return [e.evaluate(**kw), e.variables, sorted(g.keys())]
        return go
    return prep


def p_look(lib, key, kw, **flags):
    def prep(libs):
        g = EquationGroup(os.path.join(libs[lib], 'f.json'), **flags)

        def go():
            e = g[key]
            return [e.evaluate(**kw), e.variables]
        return go
    return prep


def p_dir(lib, keys, kw, **flags):
    def prep(libs):
        def go():
            d = EquationDirectory(libs[lib], **flags)
            return [d[k].evaluate(**kw) for k in keys] + [
                len(d.all_equations)]
        return go
    return prep


def p_cfg(lib, cfg, inp, **flags):
    def prep(libs):
        def go():
            c = NrwalConfig(dict(cfg, equation_directory=libs[lib]), **flags)
            out = c.evaluate(dict(inp))
            return [out, c.required_inputs, c.global_variables]
        return go
    return prep


def p_cfgeval(lib, cfg, inps):
    def prep(libs):
        c = NrwalConfig(dict(cfg, equation_directory=libs[lib]))

        def go():
            return [dict(c.evaluate(dict(i))) for i in inps] + [
                c.missing_inputs]
        return go
    return prep


def p_rel(lib, kind, kw):
    """relative paths, seen from the folder of the libraries"""
    def prep(libs):
        os.chdir(os.path.dirname(libs[lib]))    # in a process of its own
        rel = os.path.basename(libs[lib])

        def go():
            if kind == 'dir':
                d = EquationDirectory(rel)
                return [d['sub::g::e'].evaluate(**kw), str(d),
                        sorted(d.keys())]
            if kind == 'group':
                g = EquationGroup(rel + '/f.json')
                return [g['c'].evaluate(), str(g)]
            c = NrwalConfig('cfg%s/main.json' % lib)
            return [c.evaluate(dict(kw)), c.required_inputs]
        return go
    return prep


def p_merge(lib, other, kw):
    def prep(libs):
        d = EquationDirectory(libs[lib])

        def go():
            e = d + libs[other]
            e.set_default_variables({'v': 3.5}, force_update=True)
            g = e['f'] + {'n': 'x - v', 'e': 'x * 3'}
            g.set_default_variables({'v': 4.5})
            return [e['f::e'].evaluate(**kw), e['sub::g::e'].evaluate(**kw),
                    g['n'].evaluate(**kw), g['e'].evaluate(**kw),
                    d['f::e'].evaluate(**kw), len(e.all_equations)]
        return go
    return prep


def p_print(lib, key, kw):
    def prep(libs):
        d = EquationDirectory(libs[lib])
        c = NrwalConfig({'y': key, 'k': 3, 'equation_directory': libs[lib]})

        def go():
            e = d[key]
            f = copy.deepcopy(d)
            h = pickle.loads(pickle.dumps(d['f']))
            return [str(d['f']), str(e), repr(e), e.full, d.head(3),
                    str(c['y']), c.all_variables, str(f['f']), str(h),
                    f[key].evaluate(**kw), copy.deepcopy(c).evaluate(kw)]
        return go
    return prep


CA = {'k': 2, 'y': '(x + k) * (x - 1) / np.maximum(x, 3)', 'z': 'y - f::e',
      'q': 'sub::g::e'}
CB = {'k': 5, 'y': '(x - k) / (x + 1) * np.minimum(x, 3)', 'z': 'y + f::r',
      'q': 'f::t_3MW * k'}
PAIRS = {
    # name: (program 1, program 2, small)
    'eval': (p_eval('x * k - 1', {'k': 2.0}, {'x': 3.0}),
             p_eval('x + k / 2', {'k': 8.0}, {'x': 5.0}), True),
    'evalarr': (p_eval('x * k - 1', {'k': 2.0},
                       {'x': np.array([1, 2, 3])}, 2),
                p_eval('x * k - 1', {'k': 7.0},
                       {'x': np.array([4, 5])}, 2), True),
    'shared': (p_eval('x * k - m', {'k': 2.0}, {'x': 3.0, 'm': 1.0}),
               p_eval('x * k - m', {'k': 2.0}, {'x': 5.0, 'm': 2.0,
                                                'k': 9.0}), True),
    'sharedmiss': (p_eval('x * k - m', {'k': 2.0}, {'x': 3.0}),
                   p_eval('x * k - m', {'k': 2.0}, {'x': 5.0, 'm': 2.0}),
                   True),
    'err': (p_err('x + y', {'x': 1}), p_err('x + y', {'x': 1, 'y': 2}), True),
    'math': (p_math('a + p', 'b * q', {'a': 1.5, 'b': 2.5}),
             p_math('b - q', 'a / p', {'a': 4.5, 'b': 0.5}), False),
    'group': (p_group({'a': 'b * 2', 'b': 'x + w', 'n': {'c': 3.0}}, 'a',
                      {'w': 1.0}, {'x': 2.0}),
              p_group({'a': 'x - b', 'b': 'w / 4'}, 'a - b',
                      {'w': 9.0}, {'x': 5.0}), False),
    'groupsame': (p_group({'a': 'b * 2', 'b': 'x + w'}, 'a',
                          {'w': 1.0}, {'x': 2.0}),
                  p_group({'a': 'b * 2', 'b': 'x + w'}, '(a + 1) * b',
                          {'w': 7.0}, {'x': 6.0}), False),
    'look': (p_look('A', 't_6MW', {'x': 2.0}, interp_extrap_power=True),
             p_look('B', 't_6MW', {'x': 5.0}, use_nearest_power=True), False),
    'look2': (p_look('A', 's::u_2019', {}, interp_extrap_year=True),
              p_look('A', 's::u_2019', {}, use_nearest_year=True), False),
    'lookmiss': (p_look('A', 't_6MW', {'x': 2.0}, interp_extrap_power=True),
                 p_look('A', 't_6MW', {'x': 2.0}), False),
    'keymath': (p_look('A', '(e + c) / 2 - r', {'x': 2.0, 'w': 3.0,
                                                'v': 1.0}),
                p_look('B', '(e - c) * (r + 2)', {'x': 5.0, 'w': 1.0,
                                                  'v': 2.0}), False),
    'dir': (p_dir('A', ['f::e', 'sub::g::e', 'f::r'], {'x': 3.0}),
            p_dir('B', ['f::e', 'sub::g::e', 'f::c - f::e'], {'x': 4.0}),
            False),
    'dirlook': (p_dir('A', ['f::t_5MW', 'sub::g::e'], {'x': 3.0},
                      interp_extrap_power=True),
                p_dir('B', ['f::s::u_2018', 'f::e'], {'x': 4.0},
                      interp_extrap_year=True), False),
    'cfg': (p_cfg('A', CA, {'x': 4.0}), p_cfg('B', CB, {'x': 6.0}), False),
    'cfgsame': (p_cfg('A', CA, {'x': 4.0}), p_cfg('A', CA, {'x': 7.5}),
                False),
    'cfgflag': (p_cfg('A', {'y': 'f::t_6MW'}, {'x': 4.0},
                      interp_extrap_power=True),
                p_cfg('B', {'y': 'f::t_5MW', 'z': '(y + 1) * (y - x)'},
                      {'x': 6.0}, use_nearest_power=True), False),
    'cfgmiss': (p_cfg('A', {'y': 'x + m'}, {'x': 4.0}),
                p_cfg('A', {'y': 'x - m', 'm': 4}, {'x': 1.0}), False),
    'cfgcirc': (p_cfg('A', {'y': 'z + 1', 'z': 'y'}, {'x': 4.0}),
                p_cfg('A', {'y': '(z + 1) * x', 'z': 'x'}, {'x': 3.0}),
                False),
    'cfgeval': (p_cfgeval('A', CA, [{'x': 1.5}, {'x': 4.0}]),
                p_cfgeval('A', CA, [{'x': 7.0}]), False),
    'cfgdir': (p_cfg('A', CA, {'x': 4.0}),
               p_dir('B', ['f::e', 'sub::g::e'], {'x': 4.0}), False),
    'cfggroup': (p_cfg('A', {'g': 'f', 'y': 'g::e + g::t_3MW'}, {'x': 4.0}),
                 p_group({'a': 'x - b', 'b': 'w / 4'}, 'a',
                         {'w': 9.0}, {'x': 5.0}), False),
    'reldir': (p_rel('A', 'dir', {'x': 3.0}), p_rel('B', 'dir', {'x': 4.0}),
               False),
    'relgroup': (p_rel('A', 'group', {}), p_rel('B', 'dir', {'x': 4.0}),
                 False),
    'relcfg': (p_rel('A', 'cfg', {'x': 3.0}), p_rel('B', 'cfg', {'x': 4.0}),
               False),
    'merge': (p_merge('A', 'B', {'x': 3.0}), p_merge('B', 'A', {'x': 4.0}),
              False),
    'print': (p_print('A', 'f::e', {'x': 3.0}),
              p_print('B', 'f::e + 2 * f::r', {'x': 4.0}), False),
}
LARGE = ('cfgsame', 'cfgflag', 'cfgmiss', 'cfgcirc', 'cfgdir', 'cfggroup',
         'relcfg', 'merge', 'print')
TWO = ('eval', 'shared', 'sharedmiss', 'err')
SHARED = ('shared', 'sharedmiss')


class Sched:
    def __init__(self, funs, opcodes=False, record=False):
        self.funs = funs
        self.opcodes = opcodes
        n = len(funs)
        self.steps = [0] * n
        self.limit = [0] * n
        self.turn = [threading.Semaphore(0) for _ in funs]
        self.main = threading.Semaphore(0)
        self.res = [None] * n
        self.done = [False] * n
        self.locs = [[] for _ in funs] if record else None
        self.ths = []
        for t in range(n):
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            self.ths.append(th)
            th.start()

    def _body(self, t):
        self.turn[t].acquire()
        sys.settrace(self._tracer(t))
        try:
            self.res[t] = ['ok', norm(self.funs[t]())]
        except Exception as e:
            self.res[t] = ['err', type(e).__name__]
        finally:
            sys.settrace(None)
            self.done[t] = True
            self.main.release()

    def _tracer(self, t):
        steps, limit, locs = self.steps, self.limit, self.locs
        opc = self.opcodes
        what = 'opcode' if self.opcodes else 'line'

        def local(frame, event, arg):
            if event == what:
                if steps[t] == limit[t]:
                    self.main.release()
                    self.turn[t].acquire()
                steps[t] += 1
                if locs is not None:
                    locs[t].append((frame.f_code.co_filename, frame.f_lineno,
                                    frame.f_lasti if opc else 0))
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return tracer

    def run(self, segments):
        blocked = False
        for t, n in segments:
            if self.done[t]:
                continue
            self.limit[t] = -1 if n is None else self.steps[t] + n
            if n == 0 and self.steps[t] == 0:
                continue
            self.turn[t].release()
            if not self.main.acquire(timeout=4):
                blocked = True      # waits for a lock the other one holds
                break
        for t in range(len(self.funs)):
            self.limit[t] = -1
            self.turn[t].release()
        for th in self.ths:
            th.join(timeout=15)
        if any(th.is_alive() for th in self.ths):
            return None, self.steps, blocked
        return self.res, self.steps, blocked


def isolated(fun):
    """Run fun in a forked process, return its value."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(r)
            try:
                out = ['ok', fun()]
            except BaseException as e:
                import traceback
                out = ['err', traceback.format_exc()]
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    st, val = pickle.loads(data)
    if st == 'err':
        raise RuntimeError(val)
    return val


def threads(name, libs):
    a, b = PAIRS[name][:2]
    if name in SHARED:
        # both threads evaluate the same object
        e = Equation('x * k - m', name='same', default_variables={'k': 2.0})
        kws = [{'x': 3.0, 'm': 1.0}, {'x': 5.0, 'm': 2.0, 'k': 9.0}]
        if name == 'sharedmiss':
            kws = [{'x': 3.0}, {'x': 5.0, 'm': 2.0}]

        def mk(kw):
            return lambda: [e.evaluate(**kw), e.variables,
                            e.default_variables]
        return [mk(k) for k in kws]
    return [a(libs), b(libs)]


def schedule(name, libs, segs, opcodes=False):
    return isolated(lambda: Sched(threads(name, libs), opcodes).run(segs))


_LIBS = {}


def make_libs(root):
    libs = {}
    for n, t in (('A', LIBA), ('B', LIBB)):
        libs[n] = os.path.join(root, 'lib' + n)
        os.mkdir(libs[n])
        write_tree(libs[n], t)
        os.mkdir(os.path.join(root, 'cfg' + n))
        write_tree(os.path.join(root, 'cfg' + n), {
            'main.json': ('json', {'y': './o.json::m', 'z': 'y + f::c',
                                   'equation_directory': 'lib' + n}),
            'o.json': ('json', {'m': 'x * 10' if n == 'A' else 'x - 20',
                                'n': 2 if n == 'A' else 3})})
    return libs


def setup(ctx):
    _LIBS.update(make_libs(ctx.scratch))
    exp = {}
    for name in PAIRS:
        one = schedule(name, _LIBS, [(0, None), (1, None)])
        exp[name] = one[:2]
    ctx.cache['exp'] = exp


def record(name, opcodes=False):
    """Locations executed by both threads in a serial run."""
    def go():
        sc = Sched(threads(name, _LIBS), opcodes, True)
        sc.run([(0, None), (1, None)])
        return sc.locs
    return isolated(go)


def points(locs, occ):
    """Step numbers to stop at: before every occurrence (occ None), before
    the first occurrence (occ 0), or before the first `occ` and the last
    occurrence of every location."""
    if occ is None:
        return list(range(1, len(locs)))
    n, last = {}, {}
    for i, p in enumerate(locs):
        last[p] = i
    out = []
    for i, p in enumerate(locs):
        n[p] = n.get(p, 0) + 1
        if i and (n[p] <= max(occ, 1) or (occ and last[p] == i)):
            out.append(i)
    return out


def cases(tier):
    if not _LIBS:       # listing without set-up
        import tempfile
        _LIBS.update(make_libs(tempfile.mkdtemp(prefix='nrwal_c20_')))
    deep = tier == 'thorough'
    for name in PAIRS:
        locs = record(name)
        small = PAIRS[name][2]
        yield {'p': name, 'segs': [[0, None], [1, None]]}
        yield {'p': name, 'segs': [[1, None], [0, None]]}
        for a, b in ((0, 1), (1, 0)):
            for i in points(locs[a], None if small or deep else
                            0 if name in LARGE else 1):
                yield {'p': name, 'segs': [[a, i], [b, None], [a, None]]}
        if (small and name in TWO) or deep:
            occ = (2 if small else 0) if deep else 0
            for a, b in ((0, 1), (1, 0)):
                for i in points(locs[a], occ):
                    for j in points(locs[b], occ):
                        yield {'p': name, 'segs': [[a, i], [b, j], [a, None],
                                                   [b, None]]}
        if deep:
            locs = record(name, True)
            for a, b in ((0, 1), (1, 0)):
                for i in points(locs[a], None if small else 2):
                    yield {'p': name, 'op': 1,
                           'segs': [[a, i], [b, None], [a, None]]}


def run(case, ctx):
    name = case['p']
    segs = [tuple(s) for s in case['segs']]
    want, total = ctx.cache['exp'][name]
    res, steps, blocked = schedule(name, _LIBS, segs, bool(case.get('op')))
    ctx.op(sum(steps))
    ctx.state(case)
    ctx.outcome('blocked' if blocked else 'serial' if len(segs) == 2 else
                '{} preemption(s)'.format(len(segs) - 2))
    if res is None:
        fail('{} schedule {}: the threads do not finish'.format(name, segs))
    if res != want:
        fail('{} schedule {}: {} expected {}'.format(name, segs, res, want))
