"""Common machinery: exhaustive runner, counters, replay, evidence.

A check module defines

    PROP, LEVEL, ASSUMPTIONS
    tasks(tier) -> list of (function name, args)      simplest first
    and for each function name a function  f(R, *args)

A task function enumerates (part of) a bounded space and calls
``R.do(case, *args)`` for every element, where ``case`` is a module level
function that runs the real code and compares with the reference model.
``case`` raises Mismatch (through ``expect``) when the model disagrees; any
other exception escaping from it is a disagreement too, because a case only
lets exceptions escape that its model does not allow.
"""
import concurrent.futures
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import base64
import resource
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 20.0
DEADLINE_S = 840.0
MEM_BYTES = 3 << 30
NPROC = 8


class Mismatch(Exception):
    pass


class Hang(BaseException):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Mismatch(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Mismatch('%s: got %r, want %r' % (what, got, want))


def h64(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'),
                        digest_size=8).digest(), 'big')


class Stop(Exception):
    pass


class R(object):
    """Recorder of one task."""

    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed, self.known = prop, tier, seed, known
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.noutcomes = Counter()
        self.samples = []
        self.violations = []
        self.knownhits = {}

    def state(self, canon):
        h = h64(canon)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def outcome(self, o):
        self.outcomes.add(h64(o))

    def do(self, case, *args):
        """Run one complete execution; return its result or None."""
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 2.0)
        try:
            res = case(self, *args)
            signal.setitimer(signal.ITIMER_PROF, 0)
        except Hang:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.violate(case, args, 'did not terminate within %g s of CPU'
                         % CASE_CPU_S)
            return None
        except Stop:
            raise
        except MemoryError:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.violate(case, args, 'memory exhausted (%d MB)'
                         % (MEM_BYTES >> 20))
            return None
        except Mismatch as e:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.violate(case, args, str(e))
            return None
        except Exception as e:
            signal.setitimer(signal.ITIMER_PROF, 0)
            self.violate(case, args, 'unexpected %s: %s\n%s' % (
                type(e).__name__, e, traceback.format_exc(limit=-4)))
            return None
        self.traces += 1
        if res is not None:
            self.outcome(res)
        if len(self.samples) < 2 or (self.traces % 50021 == 0
                                     and len(self.samples) < 4):
            self.samples.append('%s%s -> %s' % (
                case.__name__, short(args), short(res)))
        return res

    def violate(self, case, args, text):
        for key, desc in self.known:
            if key in text:
                self.knownhits[key] = desc
                return
        self.violations.append((case.__module__, case.__name__, args, text))
        raise Stop()


def short(o, n=300):
    s = repr(o)
    return s if len(s) <= n else s[:n] + '...'


def _onprof(signum, frame):
    raise Hang()


def _worker_init():
    signal.signal(signal.SIGPROF, _onprof)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    warnings.simplefilter('ignore')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)


def _run_task(modname, prop, tier, seed, known, task):
    mod = importlib.import_module(modname)
    r = R(prop, tier, seed, known)
    fn = getattr(mod, task[0])
    try:
        fn(r, *task[1])
    except Stop:
        pass
    except Hang:
        signal.setitimer(signal.ITIMER_PROF, 0)
        r.violations.append((modname, task[0], task[1], 'task hang'))
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        # the enumeration itself failed on the behaviour of the code
        r.violations.append((modname, task[0], task[1],
                             'unexpected %s: %s\n%s' % (
                                 type(e).__name__, e,
                                 traceback.format_exc(limit=-6))))
    return (r.states, r.transitions, r.traces, r.outcomes, r.samples,
            r.violations, r.knownhits)


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    res = []
    with open(path) as f:
        for item in json.load(f)['findings']:
            if item.get('status') == 'known' and item['property'] == prop:
                res.append((item['match'], item['what']))
    return res


def write_replay(prop, viol, n=0):
    modname, case, args, text = viol
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    try:
        pk = base64.b64encode(pickle.dumps(args)).decode()
    except Exception:
        pk = None
    with open(path, 'w') as f:
        json.dump({'property': prop, 'module': modname, 'case': case,
                   'args': short(args, 5000), 'pickle': pk,
                   'disagreement': text,
                   'rerun': './check.sh %s quick --replay %s' % (prop, path)},
                  f, indent=1)
    return path


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(d['module'])
    args = pickle.loads(base64.b64decode(d['pickle']))
    r = R(d['property'], 'quick', 1, [])
    signal.signal(signal.SIGPROF, _onprof)
    fn = getattr(mod, d['case'])
    try:
        r.do(fn, *args)
    except Stop:
        print('disagreement:', r.violations[0][3])
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('no disagreement')
    return 0


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if '--replay' in argv:
        return do_replay(argv[argv.index('--replay') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = prop.lower()
    t0 = time.time()
    known = load_known(prop)
    try:
        mod = importlib.import_module(modname)
    except ImportError as e:
        # the package no longer offers the entry points
        print('cannot import:', e)
        traceback.print_exc()
        path = write_replay(prop, (modname, 'import', (), str(e)))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    tasks = mod.tasks(tier)
    only = os.environ.get('MC_ONLY')
    if only:
        tasks = [t for t in tasks if t[0] == only]
    nproc = int(os.environ.get('MC_NPROC', NPROC))
    order = list(range(len(tasks)))
    states, outcomes, samples = set(), set(), []
    transitions = traces = 0
    violation, knownhits = None, {}
    deadline = t0 + (DEADLINE_S if tier == 'quick' else 6 * 3600)
    pertask = Counter()
    ctx = multiprocessing.get_context('fork')
    ex = concurrent.futures.ProcessPoolExecutor(
        max_workers=nproc, mp_context=ctx, initializer=_worker_init)
    futs = {}
    try:
        for i in order:
            futs[i] = ex.submit(_run_task, modname, prop, tier, seed, known,
                                tasks[i])
        for i in range(len(tasks)):
            try:
                res = futs[i].result(timeout=max(1, deadline - time.time()))
            except concurrent.futures.TimeoutError:
                violation = (modname, tasks[i][0], tasks[i][1],
                             'exploration did not finish in time')
                break
            except concurrent.futures.process.BrokenProcessPool:
                violation = (modname, tasks[i][0], tasks[i][1],
                             'a worker process died while exploring')
                break
            st, tr, nt, oc, sa, vi, kh = res
            states |= st
            transitions += tr
            traces += nt
            outcomes |= oc
            pertask[tasks[i][0]] += nt
            if len(samples) < 12:
                samples += sa
            knownhits.update(kh)
            if vi:
                violation = vi[0]
                break
    finally:
        procs = list((getattr(ex, '_processes', None) or {}).values())
        if violation is not None:
            for p in procs:
                p.terminate()
        ex.shutdown(wait=violation is None, cancel_futures=True)
    wall = time.time() - t0
    cov = {'states': len(states), 'transitions': transitions,
           'traces_validated_against_impl': traces,
           'distinct_outcomes': len(outcomes),
           'exhaustive': violation is None,
           'bounds': mod.bounds(tier) if hasattr(mod, 'bounds') else '',
           'executions_per_task_kind': dict(pertask),
           'samples': samples[:12] or ['(none)']}
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'model_checking'), 'coverage': cov,
          'wall_s': round(wall, 2),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'violations': 0 if violation is None else 1}
    if ev['level'] in ('fault_enumeration', 'exploration'):
        cov['evaluations'] = traces
        cov['distinct_nontrivial'] = len(states)
        cov['rule'] = getattr(mod, 'RULE', '')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for desc in knownhits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, desc))
    print('%s %s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs'
          % (prop, tier, len(states), transitions, traces, len(outcomes),
             wall))
    if violation is not None:
        path = write_replay(prop, violation)
        print('case %s%s' % (violation[1], short(violation[2], 600)))
        print('disagreement: %s' % violation[3][:3000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if not traces:
        print('nothing explored')
        return 2
    return 0
