"""Exploration engine shared by all checks.

A property module (mc/props/cNN.py) supplies

  ID, TITLE, LEVEL, RULE, ASSUMPTIONS
  cases(tier)       -> iterable of JSON-able case descriptors (simplest first);
                       the complete enumeration of the bounded space
  run(case, ctx)    -> executes the real code on the case and compares it with
                       the reference; raises Violation on disagreement

Every case is executed.  The enumeration is partitioned by stride over forked
workers; nothing is sampled.  A case that does not terminate within CASE_CPU
seconds of CPU time or that raises an exception the reference does not expect
is a violation as well.
"""
import contextlib
import hashlib
import importlib
import io
import itertools
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter

NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    """The code under test disagrees with the reference."""
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Hang(BaseException):
    """The per-case CPU limit expired (BaseException: not to be swallowed)."""


class HarnessError(Exception):
    """The harness itself is broken; never reported as a violation."""


def jd(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=True, default=repr)


def h64(x):
    if not isinstance(x, (bytes, str)):
        x = jd(x)
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Ctx:
    """Per-worker accounting."""
    def __init__(self, tier, scratch):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.scratch = scratch
        self.evaluations = 0
        self.distinct = set()
        self.outcomes = Counter()
        self.samples = []
        self.states = 0
        self.stateset = set()
        self.transitions = 0
        self.traces = 0
        self.known = []          # (key, msg) of known findings met
        self.known_keys = set()
        self.extra = Counter()
        self._n = 0

    def ev(self, key=None, nontrivial=True):
        """Count one execution of the implementation; key identifies it."""
        self.evaluations += 1
        if nontrivial and key is not None:
            self.distinct.add(key if type(key) is int else h64(key))

    def st(self, key):
        """Count a reached state, once per distinct key."""
        self.stateset.add(h64(key))

    def out(self, label):
        self.outcomes[label] += 1

    def sample(self, x, every=997):
        self._n += 1
        if len(self.samples) < 2 or (self._n % every == 0 and len(self.samples) < 4):
            s = x if isinstance(x, str) else jd(x)
            self.samples.append(s[:2000])

    def tmp(self):
        d = tempfile.mkdtemp(dir=self.scratch)
        return d

    def fail(self, msg, key=None):
        """Report a disagreement.  If it is a listed known finding, note it and
        return; otherwise raise."""
        if key is not None and key in self.known_keys:
            if not any(k == key for k, _ in self.known):
                self.known.append((key, msg))
            return
        raise Violation(msg, key)


# ---------------------------------------------------------------- execution

def _alarm(signum, frame):
    raise Hang('CPU limit')


def _vmem(limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    except (ValueError, OSError):
        pass


def run_case(mod, case, ctx):
    """Run one case; return None or (message, key)."""
    limit = getattr(mod, 'CASE_CPU', 20)
    if ctx.thorough:
        limit = getattr(mod, 'CASE_CPU_THOROUGH', max(limit, 60))
    if str(case[0]).startswith('size'):
        limit = max(limit, 90 if ctx.thorough else 45)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        try:
            mod.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        return str(e), e.key
    except Hang:
        return ('does not terminate: more than %s s of CPU time on one case '
                '(normally milliseconds)' % limit, None)
    except (HarnessError, KeyboardInterrupt):
        raise
    except MemoryError:
        return 'memory exhausted on one small case', None
    except OSError as e:
        if e.errno in (28, 24, 12):  # ENOSPC, EMFILE, ENOMEM: our environment
            raise HarnessError(repr(e))
        return ('unexpected exception:\n' + traceback.format_exc(limit=-12), None)
    except BaseException as e:
        if isinstance(e, SystemExit) or isinstance(e, Exception):
            return ('unexpected exception:\n' + traceback.format_exc(limit=-12), None)
        raise
    return None


def _known_keys(here, pid):
    path = os.path.join(here, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as fh:
        data = json.load(fh)
    return {f['key']: f['what'] for f in data.get('findings', [])
            if f['property'] == pid}


def _coverage():
    """Development aid (VERIF_COV): the set of lines of xigt executed."""
    mon, hits = sys.monitoring, set()
    mon.use_tool_id(3, 'cov')

    def line(code, n):
        if '/xigt/' in code.co_filename:
            hits.add((code.co_filename, n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return hits


def _worker(mod, tier, w, n, wfd, scratch, deadline, known):
    """Child process: run the cases with index = w (mod n)."""
    _vmem(6 * 1024 ** 3)
    ctx = Ctx(tier, scratch)
    ctx.known_keys = set(known)
    out = os.fdopen(wfd, 'wb')
    cov = _coverage() if os.environ.get('VERIF_COV') else None
    res = {'w': w}
    capped = None
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != w:
                continue
            if time.time() > deadline:
                capped = i
                break
            v = run_case(mod, case, ctx)
            if v is not None:
                res['violation'] = {'index': i, 'case': case,
                                    'msg': v[0], 'key': v[1]}
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    res['capped'] = capped
    if cov is not None:
        with open('%s.%d' % (os.environ['VERIF_COV'], w), 'w') as fh:
            json.dump(sorted(cov), fh)
    for f in ('evaluations', 'distinct', 'outcomes', 'samples', 'states',
              'transitions', 'traces', 'known', 'extra', 'stateset'):
        res[f] = getattr(ctx, f)
    pickle.dump(res, out)
    out.flush()
    out.close()


def _fork(fn):
    """Run fn(wfd) in a child; return (pid, rfd)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            fn(w)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            with contextlib.suppress(Exception):
                sys.stdout.flush()
                sys.stderr.flush()
            os._exit(code)
    os.close(w)
    return pid, r


def _collect(procs, stop_on_violation=True):
    """procs: {rfd: (pid, w)}.  Read results; stop the rest on a violation."""
    bufs = {r: b'' for r in procs}
    results = []
    live = dict(procs)
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for r in ready:
            data = os.read(r, 1 << 20)
            if data:
                bufs[r] += data
                continue
            pid, w = live.pop(r)
            os.close(r)
            _, status = os.waitpid(pid, 0)
            try:
                res = pickle.loads(bufs[r])
            except Exception:
                res = {'w': w, 'died': status}
            results.append(res)
            if stop_on_violation and (res.get('violation') or res.get('error')):
                for r2, (p2, _) in list(live.items()):
                    with contextlib.suppress(OSError):
                        os.kill(p2, signal.SIGKILL)
                    os.waitpid(p2, 0)
                    os.close(r2)
                return results
    return results


def _fresh(mod, tier, cases, scratch, known):
    """Run a list of cases in one fresh process; return the violation of the
    last one to fail, or None."""
    def child(wfd):
        _vmem(6 * 1024 ** 3)
        ctx = Ctx(tier, scratch)
        ctx.known_keys = set(known)
        v = None
        idx = None
        for idx, case in enumerate(cases):
            v = run_case(mod, case, ctx)
            if v is not None:
                break
        with os.fdopen(wfd, 'wb') as out:
            pickle.dump((idx, v), out)
    pid, r = _fork(child)
    data = b''
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None, ('the process died', None)


def load(pid):
    return importlib.import_module('mc.props.' + pid.lower())


def _scratch():
    base = os.environ.get('TMPDIR', '/tmp')
    return tempfile.mkdtemp(prefix='xigtmc-', dir=base)


def _import_target(mod):
    """Import everything the property needs; failure to import the package is a
    violation of the property (nothing it promises is available)."""
    for name in getattr(mod, 'IMPORTS', ('xigt',)):
        importlib.import_module(name)


def check(pid, tier, here, repo):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    warnings.simplefilter('ignore')
    scratch = _scratch()
    known = _known_keys(here, pid)
    budget = 780 if tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '860'))
    deadline = t0 + budget
    try:
        try:
            mod = load(pid)
        except Exception:
            tb = traceback.format_exc()
            if repo.rstrip('/') + '/xigt' in tb:
                return _report(pid, tier, seed, None, here,
                               {'case': None, 'index': -1, 'key': None,
                                'msg': 'the package cannot be imported:\n' + tb},
                               None, t0)
            raise
        import xigt
        if not os.path.abspath(xigt.__file__).startswith(repo.rstrip('/') + '/'):
            raise HarnessError('xigt was imported from %s, not from %s'
                               % (xigt.__file__, repo))
        procs = {}
        n = min(NWORKERS, getattr(mod, 'WORKERS', NWORKERS))
        for w in range(n):
            pid_, r = _fork(lambda wfd, w=w: _worker(
                mod, tier, w, n, wfd, scratch, deadline, known))
            procs[r] = (pid_, w)
        results = _collect(procs)
        errors = [r['error'] for r in results if r.get('error')]
        viols = [(r['violation'], r) for r in results if r.get('violation')]
        died = [r for r in results if 'died' in r]
        if errors and not viols:
            sys.stdout.write(errors[0])
            print('HARNESS-ERROR property=%s' % pid)
            return 2
        agg = {'evaluations': 0, 'distinct': set(), 'outcomes': Counter(),
               'samples': [], 'states': 0, 'transitions': 0, 'traces': 0,
               'extra': Counter(), 'known': [],
               'stateset': set()}
        capped = False
        for r in results:
            if 'died' in r:
                continue
            for f in ('evaluations', 'states', 'transitions', 'traces'):
                agg[f] += r[f]
            agg['distinct'] |= r['distinct']
            agg['stateset'] |= r['stateset']
            agg['outcomes'] += r['outcomes']
            agg['extra'] += r['extra']
            agg['samples'] += r['samples'][:2]
            agg['known'] += r['known']
            if r['capped'] is not None:
                capped = True
        agg['states'] += len(agg['stateset'])
        viol = None
        if viols:
            v, r = min(viols, key=lambda p: p[0]['index'])
            viol = v
            idx, again = _fresh(mod, tier, [v['case']], scratch, known)
            if again is not None:
                v['mode'] = 'single'
            else:
                # depends on what ran earlier in the same process
                w = r['w']
                prefix = [c for i, c in enumerate(mod.cases(tier))
                          if i % n == w and i <= v['index']]
                k = 2
                v['mode'] = 'unreproduced'
                while True:
                    tail = prefix[-k:]
                    idx, again = _fresh(mod, tier, tail, scratch, known)
                    if again is not None:
                        v['mode'] = 'history'
                        v['history'] = tail[:idx + 1]
                        v['msg'] = again[0]
                        break
                    if k >= len(prefix):
                        break
                    k *= 4
        elif died:
            viol = {'case': None, 'index': -1, 'key': None, 'mode': 'crash',
                    'msg': 'a worker process died (status %s)' % died[0]['died']}
        return _report(pid, tier, seed, mod, here, viol, (agg, capped, known), t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _report(pid, tier, seed, mod, here, viol, data, t0):
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'exploration'),
          'wall_s': round(time.time() - t0, 2),
          'violations': 1 if viol else 0}
    agg, capped, known = data if data else (None, False, {})
    cov = {}
    if agg:
        cov['evaluations'] = agg['evaluations']
        cov['distinct_nontrivial'] = len(agg['distinct'])
        if ev['level'] == 'model_checking':
            cov['states'] = agg['states']
            cov['transitions'] = agg['transitions']
            cov['traces_validated_against_impl'] = agg['traces']
        cov['samples'] = agg['samples'][:6] or ['(none)']
        cov['outcomes'] = dict(sorted(agg['outcomes'].items(),
                                      key=lambda kv: (-kv[1], kv[0]))[:60])
        if agg['extra']:
            cov['counters'] = dict(agg['extra'])
        cov['exhaustive'] = not capped and not viol
        if capped:
            cov['cap'] = 'wall-clock budget reached; the enumeration is incomplete'
        bounds = getattr(mod, 'BOUNDS', None)
        if bounds:
            cov['bounds'] = bounds.get(tier) if isinstance(bounds, dict) else bounds
    else:
        cov['evaluations'] = 0
        cov['distinct_nontrivial'] = 0
        cov['samples'] = ['(nothing ran)']
    cov['rule'] = getattr(mod, 'RULE', '')
    ev['coverage'] = cov
    ev['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', []))
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    with open(os.path.join(here, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write('\n')
    if agg:
        for key in sorted(set(k for k, _ in agg['known'])):
            print('KNOWN-FINDING: property=%s %s' % (pid, known.get(key, key)))
        print('%s %s: %d executions, %d distinct, %d states, %d transitions, '
              '%.1f s%s' % (pid, tier, agg['evaluations'], len(agg['distinct']),
                            agg['states'], agg['transitions'], time.time() - t0,
                            ' (CAPPED)' if capped else ''))
    if viol:
        os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
        rec = {'property': pid, 'tier': tier, 'seed': seed,
               'mode': viol.get('mode', 'single'), 'case': viol['case'],
               'history': viol.get('history'), 'message': viol['msg'],
               'key': viol.get('key')}
        name = '%s-%016x.json' % (pid, h64([viol['case'], viol['msg'][:200]]))
        path = os.path.join(here, 'replays', name)
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1, default=repr)
            fh.write('\n')
        print('case: %s' % jd(viol['case'])[:3000])
        print(viol['msg'][:4000])
        print('mode: %s' % viol.get('mode', 'single'))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def replay(path, here, repo):
    with open(path) as fh:
        rec = json.load(fh)
    warnings.simplefilter('ignore')
    mod = load(rec['property'])
    scratch = _scratch()
    try:
        cases = rec.get('history') or [rec['case']]
        idx, v = _fresh(mod, rec['tier'], cases, scratch,
                        _known_keys(here, rec['property']))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print('not reproduced: property %s holds on this case' % rec['property'])
        return 0
    print(v[0])
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def all_ids(here):
    d = os.path.join(here, 'mc', 'props')
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.startswith('c') and f.endswith('.py'))


def main(argv, here, repo):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('ids', nargs='*')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                   choices=['quick', 'thorough'])
    p.add_argument('--replay')
    p.add_argument('--all', action='store_true')
    p.add_argument('--setup', action='store_true')
    a = p.parse_args(argv)
    if a.setup:
        ids = all_ids(here)
        print('%d property modules, python %s' % (len(ids), sys.version.split()[0]))
        return 0
    if a.replay:
        return replay(a.replay, here, repo)
    ids = all_ids(here) if a.all else [i.upper() for i in a.ids]
    rc = 0
    for i in ids:
        try:
            rc = max(rc, check(i, a.tier, here, repo))
        except Exception:
            traceback.print_exc(file=sys.stdout)
            print('HARNESS-ERROR property=%s' % i)
            rc = max(rc, 2)
    return rc


# ---------------------------------------------------------------- utilities

@contextlib.contextmanager
def captured():
    """Capture sys.stdout and sys.stderr together."""
    buf = io.StringIO()
    o, e = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = buf
    try:
        yield buf
    finally:
        sys.stdout, sys.stderr = o, e


def catch(fn, *args, **kwargs):
    """('ok', value) or ('err', exception)."""
    try:
        return 'ok', fn(*args, **kwargs)
    except (Hang, HarnessError, Violation, MemoryError, RecursionError):
        raise
    except Exception as e:
        return 'err', e


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    hi = len(xs) if hi is None else hi
    for k in range(lo, hi + 1):
        yield from itertools.combinations(xs, k)


def show(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'
