"""Runner: seeded search, minimisation, replay, evidence.

  python -m dsim.run C01 --tier quick|thorough     a check
  python -m dsim.run --replay FILE                 reproduce a violation
  python -m dsim.run C01 --worker S ...            internal: one shard
  python -m dsim.run C01 --digests N               internal: determinism test
"""
import argparse
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import subprocess
import sys
import traceback

from . import core
from .core import REAL, Recorder, RunTimeout, StepLimit, Violation, mix
from .threads import Stuck

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
RUN_SECONDS = 60
STEP_LIMIT = 200000000
WORKER_BYTES = 3 << 30
CAP = {'quick': 420.0, 'thorough': 780.0}


def scenario(prop):
    return importlib.import_module('dsim.scen.' + prop.lower())


def repo_frame(tb):
    """Last repository frame of a traceback, or None."""
    found = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(core.SRC + os.sep):
            found = f
    return found


class _Steps(object):
    """Deterministic step limit on repository code (sys.monitoring)."""

    def __init__(self, limit):
        self.limit = limit
        self.n = 0

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(4, 'dsim-steps')
        ev = m.events.LINE

        def line(code, lineno):
            if not code.co_filename.startswith(core.SRC):
                return m.DISABLE
            self.n += 1
            if self.n > self.limit:
                self.n = 0
                raise StepLimit()
        m.register_callback(4, ev, line)
        m.set_events(4, ev)
        return self

    def __exit__(self, *exc):
        m = sys.monitoring
        m.set_events(4, 0)
        m.register_callback(4, m.events.LINE, None)
        m.free_tool_id(4)
        return False


def _alarm(signum, frame):
    raise RunTimeout()


def run_plan(scen, plan, keep=0, limit=None):
    """Execute one plan.  Returns (recorder, Violation or None)."""
    rec = Recorder(keep)
    v = None
    try:
        if limit is not None:
            with _Steps(limit):
                scen.execute(copy.deepcopy(plan), rec)
        else:
            scen.execute(copy.deepcopy(plan), rec)
    except Violation as e:
        v = e
    except StepLimit:
        v = Violation('no-progress', 'more than %d steps in repository code' % (limit or STEP_LIMIT))
    except RunTimeout:
        raise
    except MemoryError:
        v = Violation('memory', 'MemoryError outside of any injected one')
    except Exception as e:
        if isinstance(e, Stuck):
            # threads waiting for something the simulation does not control: nothing is decided
            rec.probe('undecided')
            return rec, None
        f = repo_frame(e.__traceback__)
        if f is None:
            # the scenario could not even use what the code gave it
            g = traceback.extract_tb(e.__traceback__)[-1]
            v = Violation('unusable:%s' % type(e).__name__, '%r at %s:%d: %s' % (
                e, os.path.basename(g.filename), g.lineno, g.line))
            rec.ev('violation', v.kind)
            return rec, v
        v = Violation('exception:%s' % type(e).__name__,
                      '%r raised at %s:%d in %s' % (e, os.path.basename(f.filename), f.lineno, f.name))
    if v is not None:
        rec.ev('violation', v.kind)
    return rec, v


def watched(scen, plan, keep=0):
    """run_plan with a watchdog; a run that hangs is decided by step count."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_SECONDS)
    try:
        return run_plan(scen, plan, keep)
    except RunTimeout:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    rec, v = run_plan(scen, plan, keep, limit=STEP_LIMIT)
    rec.probe('slow-run')
    return rec, v


def plan_of(scen, vseed, prop, i, tier):
    rng = random.Random(mix(vseed, prop, i))
    p = scen.plan(rng, tier)
    # plans are JSON from the start, so that a replay is exactly the run
    return json.loads(json.dumps(p))


# -- minimisation ---------------------------------------------------------

def _key(q, k):
    return int(k) if isinstance(q, list) else k


def _get(plan, path):
    for k in path:
        plan = plan[_key(plan, k)]
    return plan


def _put(plan, path, val):
    p = copy.deepcopy(plan)
    q = p
    for k in path[:-1]:
        q = q[_key(q, k)]
    q[_key(q, path[-1])] = val
    return p


def minimise(scen, plan, v, seconds=45.0, budget=500):
    t0 = REAL.perf()
    n = [0]

    def fails(p):
        if n[0] >= budget or REAL.perf() - t0 > seconds:
            return None
        n[0] += 1
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, 10)
            _, w = run_plan(scen, p, limit=STEP_LIMIT if v.kind == 'no-progress' else None)
        except RunTimeout:
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return w if w is not None and w.kind == v.kind else None

    if v.kind == 'no-progress':
        return plan, v, 0
    best, bv = plan, v
    changed = True
    while changed:
        changed = False
        for path in getattr(scen, 'SHRINK', ()):
            path = path.split('.')
            try:
                lst = _get(best, path)
            except (KeyError, TypeError, IndexError, ValueError):
                continue
            if not isinstance(lst, list):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1 and lst:
                i = 0
                while i < len(lst):
                    cand = _put(best, path, lst[:i] + lst[i + size:])
                    w = fails(cand)
                    if w is not None:
                        best, bv, changed = cand, w, True
                        lst = _get(best, path)
                    else:
                        i += size
                size //= 2
        for simpler in getattr(scen, 'simplify', lambda p: ())(best):
            w = fails(simpler)
            if w is not None:
                best, bv, changed = simpler, w, True
                break
        if n[0] >= budget or REAL.perf() - t0 > seconds:
            break
    return best, bv, n[0]


# -- a shard --------------------------------------------------------------

def worker(prop, shard, total, tier, vseed, deadline):
    scen = scenario(prop)
    t0 = REAL.perf()
    out = {'runs': 0, 'faults': {}, 'probes': {}, 'sim_time': 0.0, 'events': 0,
           'digests': [], 'shapes': [], 'nontrivial': [], 'samples': [], 'violation': None,
           'truncated': False, 'hasherr': None}
    for i in range(shard, total, SHARDS):
        if REAL.perf() - t0 > deadline:
            out['truncated'] = True
            break
        plan = plan_of(scen, vseed, prop, i, tier)
        rec, v = watched(scen, plan)
        out['runs'] += 1
        for k, n in rec.faults.items():
            out['faults'][k] = out['faults'].get(k, 0) + n
        for k, n in rec.probes.items():
            out['probes'][k] = out['probes'].get(k, 0) + n
        out['sim_time'] += rec.sim_time
        out['events'] += rec.events
        out['digests'].append(rec.digest()[:12])
        out['shapes'].append(rec.shape.hexdigest()[:12])
        if rec.probes.get('nontrivial'):
            out['nontrivial'].append(rec.digest()[:12])
        if len(out['samples']) < 2:
            s = json.dumps(plan, sort_keys=True)
            out['samples'].append({'run': i, 'seed': '%016x' % mix(vseed, prop, i),
                                   'history': rec.digest(), 'faults': rec.faults,
                                   'plan': s if len(s) < 1500 else s[:1500] + '...'})
        if v is not None:
            best, bv, tried = minimise(scen, plan, v)
            rec2, v2 = watched(scen, best)
            if v2 is None:
                best, bv = plan, v
                rec2, v2 = rec, v
            out['violation'] = {'run': i, 'plan': best, 'full_plan': plan,
                                'kind': bv.kind, 'detail': bv.detail, 'shrink_runs': tried,
                                'digest': rec2.digest(), 'full_digest': rec.digest(),
                                'full_kind': v.kind, 'full_detail': v.detail}
            break
    out['wall'] = REAL.perf() - t0
    return out


def child_env(hashseed):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hashseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONPATH'] = VERIF
    env.pop('PYTHONWARNINGS', None)
    env['LC_ALL'] = 'C.UTF-8'
    return env


def spawn(args, hashseed, **kw):
    return subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-m', 'dsim.run'] + args,
                            cwd=VERIF, env=child_env(hashseed), **kw)


# -- the check ------------------------------------------------------------

def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line[len('finding: property=%s ' % prop):])
    return out


def check(prop, tier, vseed):
    scen = scenario(prop)
    total = scen.RUNS[tier]
    t0 = REAL.perf()
    deadline = CAP[tier]
    procs = []
    for s in range(SHARDS):
        procs.append(spawn([prop, '--worker', str(s), '--total', str(total), '--tier', tier,
                            '--seed', str(vseed), '--deadline', str(deadline)], s,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    outs, errors = [], []
    for s, p in enumerate(procs):
        so, se = p.communicate()
        try:
            if p.returncode != 0:
                raise ValueError('exit %s' % p.returncode)
            outs.append(json.loads(so.decode('utf-8').splitlines()[-1]))
        except Exception as e:
            errors.append('shard %d: %s\n%s' % (s, e, se.decode('utf-8', 'replace')[-3000:]))
            outs.append(None)
    violations = []
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    for s, o in enumerate(outs):
        if o is None or not o['violation']:
            continue
        x = o['violation']
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d-%d.json' % (prop, vseed, x['run']))
        rep = {'property': prop, 'verif_seed': vseed, 'tier': tier, 'run': x['run'],
               'seed': '%016x' % mix(vseed, prop, x['run']), 'hashseed': s,
               'kind': x['kind'], 'detail': x['detail'], 'digest': x['digest'],
               'minimised_with_runs': x['shrink_runs'], 'plan': x['plan']}
        stable = False
        for plan, kind, detail, digest in ((x['plan'], x['kind'], x['detail'], x['digest']),
                                           (x['full_plan'], x['full_kind'], x['full_detail'],
                                            x['full_digest'])):
            rep.update(plan=plan, kind=kind, detail=detail, digest=digest)
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1, sort_keys=True)
            p = spawn(['--replay', path], s, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            so, se = p.communicate()
            if p.returncode == 1 and b'REPRODUCED' in so:
                stable = True
                break
        violations.append({'replay': path, 'kind': rep['kind'], 'detail': rep['detail'],
                           'run': x['run'], 'reproduced_in_fresh_process': stable})
    known = []
    if hasattr(scen, 'known'):
        for fid, what, still in scen.known():
            if any(k.startswith('[%s]' % fid) for k in known_findings(prop)):
                if still:
                    known.append('[%s] %s' % (fid, what))
            elif still:
                violations.append({'replay': '-', 'kind': fid, 'detail': what, 'run': -1,
                                   'reproduced_in_fresh_process': True})
    wall = REAL.perf() - t0
    good = [o for o in outs if o]
    runs = sum(o['runs'] for o in good)
    faults, probes = {}, {}
    for o in good:
        for k, n in o['faults'].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in o['probes'].items():
            probes[k] = probes.get(k, 0) + n
    dig = set(d for o in good for d in o['digests'])
    nontriv = set(d for o in good for d in o['nontrivial'])
    shapes = set(d for o in good for d in o['shapes'])
    samples = [x for o in good for x in o['samples']][:6]
    for v in violations:
        samples.insert(0, {'violation': v['kind'], 'detail': v['detail'][:1000], 'replay': v['replay']})
    ev = {
        'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration',
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(nontriv),
            'rule': scen.RULE,
            'samples': samples,
            'runs_per_hour': round(runs / wall * 3600) if wall else 0,
            'seeds_per_hour': round(runs / wall * 3600) if wall else 0,
            'simulated_seconds': round(sum(o['sim_time'] for o in good), 3),
            'history_events': sum(o['events'] for o in good),
            'faults_injected': dict(sorted(faults.items())),
            'situations_reached': dict(sorted(probes.items())),
            'distinct_histories': len(dig),
            'distinct_interleavings': len(shapes),
            'interleaving_measure': getattr(scen, 'MEASURE',
                                            'hash of the sequence of scheduling and fault decisions'),
            'real_components': scen.REAL,
            'stub_components': scen.STUB,
            'planned_runs': total,
            'wall_cap_hit': any(o['truncated'] for o in good),
        },
        'wall_s': round(wall, 2),
        'assumptions': scen.ASSUMPTIONS,
        'violations': len(violations),
        'known_findings': known,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for v in violations:
        print('%s run=%d %s: %s' % (prop, v['run'], v['kind'], v['detail'][:2000]))
        if not v['reproduced_in_fresh_process']:
            print('(the replay did not behave the same in a fresh process)')
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    print('%s %s: %d runs, %d distinct histories, %d interleavings, %.1fs' % (
        prop, tier, runs, len(dig), len(shapes), wall))
    if violations:
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        return 2
    return 0


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    scen = scenario(rep['property'])
    rec, v = watched(scen, rep['plan'], keep=400)
    if v is None:
        print('no violation: the property holds on this replay')
        return 0
    for line in rec.log:
        print('  ', line[:300])
    same = v.kind == rep['kind'] and rec.digest() == rep['digest']
    print('%s: %s' % (v.kind, v.detail))
    print('REPRODUCED' if same else 'DIFFERENT (recorded %s %s, got %s)' % (
        rep['kind'], rep['digest'], rec.digest()))
    print('VIOLATION property=%s replay=%s' % (rep['property'], path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--worker', type=int)
    ap.add_argument('--total', type=int)
    ap.add_argument('--deadline', type=float, default=1e9)
    ap.add_argument('--replay')
    ap.add_argument('--digests', type=int)
    ap.add_argument('--one', type=int, help='run one index and print its history')
    a = ap.parse_args()
    vseed = a.seed
    if vseed is None:
        try:
            vseed = int(os.environ.get('VERIF_SEED') or 1)
        except ValueError:
            vseed = mix(os.environ['VERIF_SEED']) & 0x7fffffff
    if a.replay:
        with open(a.replay) as f:
            hs = str(json.load(f)['hashseed'])
        if os.environ.get('PYTHONHASHSEED') != hs or os.environ.get('PYTHONPATH') != VERIF:
            p = spawn(['--replay', os.path.abspath(a.replay)], hs)
            return p.wait()
        return replay(a.replay)
    if a.worker is not None:
        # runaway allocation becomes a MemoryError of the run
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))
        out = worker(a.prop, a.worker, a.total, a.tier, vseed, a.deadline)
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()
        return 0
    if a.digests is not None:
        scen = scenario(a.prop)
        for i in range(a.digests):
            rec, v = watched(scen, plan_of(scen, vseed, a.prop, i, a.tier))
            print(i, rec.digest(), rec.shape.hexdigest(), v.kind if v else '-')
        return 0
    if a.one is not None:
        scen = scenario(a.prop)
        plan = plan_of(scen, vseed, a.prop, a.one, a.tier)
        print(json.dumps(plan)[:4000])
        rec, v = watched(scen, plan, keep=2000)
        print('\n'.join(rec.log))
        print(rec.faults, rec.probes, v)
        return 0
    return check(a.prop, a.tier, vseed)


if __name__ == '__main__':
    sys.exit(main())
