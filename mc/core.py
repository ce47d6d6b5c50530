"""Exploration driver: enumerates cases in worker processes, runs each on the
real code in /repo, collects coverage, writes evidence and replay files."""
import argparse
import hashlib
import importlib
import itertools
import json
import logging
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NRWAL_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
logging.disable(logging.CRITICAL)
warnings.filterwarnings('ignore')

MAX_VIOL_PER_WORKER = int(os.environ.get('NRWAL_MAX_VIOL', 12))
SHARE = int(os.environ.get('NRWAL_SHARE', 1))


class CaseTimeout(BaseException):
    """Raised by the interval timer inside a case (not an Exception, so that
    the code under test cannot swallow it)."""


class Violation(Exception):
    """Raised by a check when an observation differs from the model."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def h64(obj):
    if not isinstance(obj, str):
        obj = json.dumps(obj, sort_keys=True, default=repr)
    return int.from_bytes(hashlib.blake2b(obj.encode('utf8', 'replace'),
                                          digest_size=8).digest(), 'big')


class Ctx:
    """Per-worker context handed to every case."""

    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = {}
        self.cache = {}
        self._n = 0

    def op(self, n=1):
        """Count operations executed on the implementation."""
        self.transitions += n

    def state(self, obj):
        """Record a model state reached."""
        self.states.add(h64(obj))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def call(self, fn, *args, **kwargs):
        """Call into the implementation: ('ok', value) or ('err', exc)."""
        self.transitions += 1
        try:
            return 'ok', fn(*args, **kwargs)
        except Exception as e:
            return 'err', e

    def fresh_dir(self):
        """New empty scratch directory (removed after the case)."""
        self._n += 1
        d = os.path.join(self.scratch, 'c{}'.format(self._n))
        os.mkdir(d)
        return d

    def clean(self):
        for name in os.listdir(self.scratch):
            if name.startswith('c') and name[1:].isdigit():
                shutil.rmtree(os.path.join(self.scratch, name),
                              ignore_errors=True)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, ctx, limit):
    """-> None or (message, key)"""
    signal.signal(signal.SIGALRM, _alarm)
    try:
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            mod.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except CaseTimeout:
        return ('TIMEOUT', None)
    except Violation as v:
        return (str(v), v.key)
    except RecursionError:
        return ('RecursionError escaped: ' + traceback.format_exc()[-600:],
                None)
    except Exception:
        return ('unexpected exception: ' + traceback.format_exc()[-1200:],
                None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            ctx.clean()
        except OSError:
            pass


def _worker(mod, tier, seed, i, n, scratch, deadline, out):
    sys.setrecursionlimit(3000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    limit = getattr(mod, 'CASE_LIMIT', 10)
    ctx = Ctx(scratch, tier)
    viols, samples, known_hit = [], [], {}
    known = {f.get('key') for f in load_known() if f.get('status') == 'open'
             and f.get('property') == mod.__name__.split('.')[-1].upper()}
    complete = True
    try:
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        # VERIF_SEED only rotates which worker takes which share
        for k, case in enumerate(mod.cases(tier)):
            if (k + seed) % n != i:
                continue
            # development only (tools/mutate.py): a share of the cases
            if SHARE > 1 and h64(str(k)) % SHARE:
                continue
            if time.time() > deadline:
                complete = False
                break
            bad = run_case(mod, case, ctx, limit)
            if bad and bad[0] == 'TIMEOUT':
                bad = run_case(mod, case, ctx, 6 * limit)
                if bad and bad[0] == 'TIMEOUT':
                    bad = ('no answer within {} s'.format(6 * limit), None)
            ctx.traces += 1
            if len(samples) < 2 and ctx.traces % 97 == 1:
                samples.append(case)
            if bad and bad[1] in known:
                known_hit.setdefault(bad[1], (0, k, case, bad[0], bad[1]))
            elif bad:
                viols.append((len(json.dumps(case, default=repr)), k, case,
                              bad[0], bad[1]))
                if len(viols) >= MAX_VIOL_PER_WORKER:
                    complete = False
                    break
    except BaseException:
        out['error'] = traceback.format_exc()
        complete = False
    out.update(viols=viols + list(known_hit.values()), samples=samples, states=ctx.states,
               transitions=ctx.transitions, traces=ctx.traces,
               outcomes=ctx.outcomes, complete=complete)


def explore(mod, tier, seed, nproc, budget):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    root = tempfile.mkdtemp(prefix='nrwal_mc_', dir=base)
    t_end = time.time() + budget
    pids = []
    try:
        for i in range(nproc):
            scratch = os.path.join(root, 'w{}'.format(i))
            os.mkdir(scratch)
            res = os.path.join(root, 'r{}'.format(i))
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    out = {}
                    os.chdir(scratch)
                    _worker(mod, tier, seed, i, nproc, scratch, t_end, out)
                    with open(res, 'wb') as f:
                        pickle.dump(out, f)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            pids.append((pid, res))
        outs, dead = [], 0
        for pid, res in pids:
            os.waitpid(pid, 0)
            try:
                with open(res, 'rb') as f:
                    outs.append(pickle.load(f))
            except (OSError, EOFError, pickle.UnpicklingError):
                dead += 1
        return outs, dead
    finally:
        shutil.rmtree(root, ignore_errors=True)


def load_known():
    fp = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fp):
        return []
    with open(fp) as f:
        return json.load(f).get('findings', [])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--max-print', type=int, default=5)
    args = ap.parse_args(argv)
    pid = args.property
    t0 = time.time()
    out_dir = os.environ.get('NRWAL_OUT') or VERIF
    replays = os.path.join(out_dir, 'replays')
    os.makedirs(replays, exist_ok=True)
    try:
        import numpy, pandas, yaml  # noqa: F401
        # never trust left-over bytecode of the code under test
        sys.pycache_prefix = '/nonexistent-pycache'
        import NRWAL
        where = os.path.realpath(NRWAL.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            print('NRWAL was imported from', where)
            return 2
        mod = importlib.import_module('mc.' + pid.lower())
    except Exception:
        traceback.print_exc()
        fp = os.path.join(replays, pid + '.json')
        with open(fp, 'w') as f:
            json.dump({'property': pid, 'message': traceback.format_exc()}, f)
        print('VIOLATION property={} replay={}'.format(pid, fp))
        return 1

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        root = tempfile.mkdtemp(prefix='nrwal_mc_')
        cwd = os.getcwd()
        try:
            os.chdir(root)
            ctx = Ctx(root, rec.get('tier', 'quick'))
            if hasattr(mod, 'setup'):
                mod.setup(ctx)
            bad = run_case(mod, rec['case'], ctx, 60)
        finally:
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)
        print(json.dumps(rec['case'], indent=1, default=repr))
        print('REPRODUCED: ' + bad[0] if bad else 'not reproduced')
        return 1 if bad else 0

    nproc = args.jobs or min(8, os.cpu_count() or 1)
    if getattr(mod, 'SERIAL', False):
        nproc = 1
    budget = 660 if args.tier == 'quick' else 6 * 3600
    outs, dead = explore(mod, args.tier, args.seed, nproc, budget)
    states, outcomes = set(), {}
    viols, samples = [], []
    transitions = traces = 0
    complete = not dead
    for o in outs:
        if o.get('error'):
            print(o['error'])
            viols.append((0, 0, None, 'worker error: ' + o['error'], None))
        states |= o.get('states', set())
        transitions += o.get('transitions', 0)
        traces += o.get('traces', 0)
        viols += o.get('viols', [])
        samples += o.get('samples', [])
        complete = complete and o.get('complete', False)
        for k, v in o.get('outcomes', {}).items():
            outcomes[k] = outcomes.get(k, 0) + v
    if dead:
        viols.append((0, 0, None, '{} worker(s) died'.format(dead), None))

    known = {f.get('key'): f for f in load_known()
             if f.get('property') == pid and f.get('status') == 'open'}
    hit, new = {}, []
    for v in sorted(viols, key=lambda x: (x[0], x[1])):
        if v[4] is not None and v[4] in known:
            hit[v[4]] = known[v[4]]
        else:
            new.append(v)

    level = 'model_checking'
    cov = dict(states=len(states), transitions=transitions,
               traces_validated_against_impl=traces,
               samples=samples[:6] or ['none'], outcomes=outcomes,
               exhaustive=bool(complete and not new),
               bounds=getattr(mod, 'BOUNDS', {}).get(args.tier, ''),
               what=' '.join((mod.__doc__ or '').split()))
    if getattr(mod, 'EXTRA', None):
        cov.update(mod.EXTRA)
    os.makedirs(os.path.join(out_dir, 'evidence'), exist_ok=True)
    with open(os.path.join(out_dir, 'evidence', pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=args.tier, seed=args.seed,
                       level=level, coverage=cov,
                       assumptions=getattr(mod, 'ASSUMPTIONS', []),
                       wall_s=round(time.time() - t0, 2),
                       violations=len(new)),
                  f, indent=1, default=repr)
    for k, f in sorted(hit.items()):
        print('KNOWN-FINDING: property={} {}'.format(pid, f['what']))
    print('{} {}: {} traces, {} states, {} transitions, {:.1f} s, outcomes {}'
          .format(pid, args.tier, traces, len(states), transitions,
                  time.time() - t0, outcomes))
    if not complete and not new:
        print('note: exploration stopped at its time budget')
    if new:
        fp = os.path.join(replays, pid + '.json')
        v = new[0]
        with open(fp, 'w') as f:
            json.dump(dict(property=pid, tier=args.tier, case=v[2],
                           message=v[3]), f, indent=1, default=repr)
        for v in new[:args.max_print]:
            print('  case {}\n    -> {}'.format(
                json.dumps(v[2], default=repr)[:700], v[3][:1500]))
        print('VIOLATION property={} replay={}'.format(pid, fp))
        return 1
    return 0


def fail(msg, key=None):
    raise Violation(msg, key)
