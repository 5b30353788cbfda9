#!/opt/venv/bin/python
"""Runner: explores simulated runs of one property, minimises and replays violations.

  run.py <ID> [--tier quick|thorough] [--runs N] [--start I] [--jobs J]
  run.py <ID> --replay FILE
  run.py <ID> --digests N        (print per-run digests: determinism checks)
"""
import argparse
import gc
import importlib
import json
import os
import random
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
RUN_WALL = 90.0           # wall seconds without progress before a run counts as hung
NJOBS = int(os.environ.get('VERIF_JOBS', '8'))


def load(pid):
    return importlib.import_module('props.' + pid.lower())


def scenario(mod, vseed, index, tier):
    seed = '%s/%s/%d' % (mod.ID, vseed, index)
    sc = mod.gen(random.Random('gen:' + seed), tier)
    sc = json.loads(json.dumps(sc))
    sc['seed'] = seed
    sc['index'] = index
    return sc


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and
                k.get('status') == 'known']


def is_known(v, known):
    for k in known:
        if v['kind'] == k['kind'] and re.search(k['match'], v['msg'], re.S):
            return k
    return None


# ---------------------------------------------------------------- worker
def strip(r):
    return {k: v for k, v in r.items() if not k.startswith('_')}


def worker(args):
    gc.disable()
    import sim.world as world
    from sim import core
    mod = load(args.id)
    out = sys.stdout
    t_end = core.real_monotonic() + args.budget
    since = 0
    steps_since = 0
    for index in range(args.start, args.start + args.runs):
        if index % args.jobs != args.worker:
            continue
        if core.real_monotonic() > t_end:
            break
        out.write('S %d\n' % index)
        out.flush()
        sc = scenario(mod, args.vseed, index, args.tier)
        try:
            r = world.run_scenario(mod, sc)
        except Exception:
            import traceback
            out.write('E %s\n' % json.dumps([index, traceback.format_exc()]))
            out.flush()
            core.SIM = None
            break
        since += 1
        steps_since += r['steps']
        res = strip(r)
        if args.sample and index < 2:
            res['scenario'] = sc
        del r
        out.write('R %s\n' % json.dumps([index, res]))
        out.flush()
        if since >= 15 or steps_since > 60000:
            core.collect()
            since = steps_since = 0
    out.write('D\n')
    out.flush()
    os._exit(0)


def one(args):
    """Run one scenario file in this fresh process; print the result as JSON."""
    gc.disable()
    import sim.world as world
    from sim import core
    mod = load(args.id)
    with open(args.one) as f:
        sc = json.load(f)
    sc = sc.get('scenario', sc)
    try:
        r = world.run_scenario(mod, sc)
    except Exception:
        import traceback
        print('E ' + json.dumps(traceback.format_exc()))
        sys.stdout.flush()
        os._exit(2)
    res = strip(r)
    if args.verbose:
        for item in list(r['_sim'].trace)[-args.verbose:]:
            print('T', item)
        print(core.format_log(r['_sim'], 60))
    print('R ' + json.dumps(res))
    sys.stdout.flush()
    os._exit(0)


def minimise(args):
    """Shrink the scenario in args.minimise while the same violation kind persists."""
    gc.disable()
    import sim.world as world
    from sim import core
    mod = load(args.id)
    with open(args.minimise) as f:
        data = json.load(f)
    best = data['scenario']
    kind = data['kind']
    known = known_findings(mod.ID)
    t_end = core.real_monotonic() + args.budget
    tries = [0]

    def fails(sc):
        if core.real_monotonic() > t_end:
            return False
        tries[0] += 1
        sys.stdout.write('S 0\n')
        sys.stdout.flush()
        try:
            r = world.run_scenario(mod, sc)
        except Exception:
            core.SIM = None
            return False
        finally:
            if tries[0] % 10 == 0:
                core.collect()
        return any(v['kind'] == kind and not is_known(v, known) for v in r['violations'])

    def shrink_list(sc, key):
        items = sc.get(key) or []
        n = 2
        while items:
            size = max(1, len(items) // n)
            changed = False
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                new = dict(sc)
                new[key] = cand
                if fails(new):
                    items = cand
                    sc = new
                    changed = True
                else:
                    i += size
                if core.real_monotonic() > t_end:
                    return sc
            if size == 1 and not changed:
                break
            if not changed:
                n = min(n * 2, len(items) or 1)
        return sc

    if not fails(best):
        print('M ' + json.dumps({'ok': False}))
        sys.stdout.flush()
        os._exit(0)
    defaults = dict(getattr(mod, 'DEFAULTS', {}))
    for knob, dflt in [('net', {}), ('lock_yield', 0.0), ('preempt', [])] + sorted(defaults.items()):
        if best.get(knob) and best[knob] != dflt:
            new = dict(best)
            new[knob] = dflt
            if fails(new):
                best = new
    for rnd in range(2):
        for key in list(getattr(mod, 'SHRINK', ['ops'])) + ['preempt']:
            best = shrink_list(best, key)
    print('M ' + json.dumps({'ok': True, 'scenario': best, 'tries': tries[0]}))
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------- parent
def env(hashseed='0'):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = hashseed
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e.pop('PYTHONPATH', None)
    return e


class Worker(object):
    def __init__(self, argv, hashseed='0'):
        self.p = subprocess.Popen([PY, '--jit', 'off', os.path.join(HERE, 'run.py')] + argv,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  env=env(hashseed), cwd=HERE)
        os.set_blocking(self.p.stdout.fileno(), False)
        os.set_blocking(self.p.stderr.fileno(), False)
        self.buf = b''
        self.err = b''
        self.last = time.monotonic()
        self.current = None
        self.done = False

    def poll(self):
        """-> list of complete lines"""
        lines = []
        while True:
            try:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
            except BlockingIOError:
                break
            if not d:
                break
            self.last = time.monotonic()
            self.buf += d
        while True:
            try:
                d = os.read(self.p.stderr.fileno(), 1 << 16)
            except BlockingIOError:
                break
            if not d:
                break
            self.err = (self.err + d)[-8000:]
        while b'\n' in self.buf:
            l, self.buf = self.buf.split(b'\n', 1)
            lines.append(l.decode('utf-8', 'replace'))
        return lines

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()


def run_file(pid, path, hashseed='0', wall=RUN_WALL):
    """One scenario in a fresh process -> result dict or {'hang': True} or {'error':..}"""
    w = Worker([pid, '--one', path], hashseed)
    t0 = time.monotonic()
    lines = []
    while w.p.poll() is None:
        lines += w.poll()
        if time.monotonic() - t0 > wall:
            w.kill()
            return {'hang': True}
        time.sleep(0.01)
    lines += w.poll()
    for l in lines:
        if l.startswith('R '):
            return json.loads(l[2:])
        if l.startswith('E '):
            return {'error': json.loads(l[2:])}
    return {'error': 'no result; stderr: ' + w.err.decode('utf-8', 'replace')}


def save(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=NJOBS)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--digests', action='store_true')
    ap.add_argument('--hashseed', default='0')
    ap.add_argument('--vseed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--one')
    ap.add_argument('--minimise')
    ap.add_argument('--verbose', type=int, default=0)
    ap.add_argument('--worker', type=int)
    ap.add_argument('--sample', type=int, default=1)
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--keep-going', action='store_true')
    args = ap.parse_args()
    args.id = args.id.upper()
    if args.one:
        return one(args)
    if args.minimise:
        return minimise(args)
    if args.worker is not None:
        return worker(args)
    if args.replay:
        return replay(args)
    return explore(args)


def replay(args):
    with open(args.replay) as f:
        rep = json.load(f)
    r = run_file(args.id, args.replay)
    if r.get('error'):
        print('ERROR: harness error\n%s' % r['error'])
        return 2
    vs = [{'kind': 'hang', 'msg': 'run does not end'}] if r.get('hang') else r['violations']
    same = [v for v in vs if v['kind'] == rep['violation']['kind']]
    for v in vs:
        print('  %(kind)s: %(msg)s' % v)
    if same:
        print('digest %s (recorded %s)' % (r.get('digest'), rep.get('digest')))
        print('VIOLATION property=%s replay=%s' % (args.id, args.replay))
        return 1
    print('not reproduced on this tree')
    return 0


def static_cfg(pid):
    """Module attributes without importing katcp in the parent."""
    r = subprocess.run([PY, '-c',
                        'import sys,json;sys.path.insert(0,%r);import importlib;'
                        'm=importlib.import_module("props.%s");'
                        'print("CFG"+json.dumps({k:getattr(m,k) for k in '
                        '("ID","RUNS","RULE","REAL","STUB","ASSUME","MIN_PROBES") if hasattr(m,k)}))'
                        % (HERE, pid.lower())], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env(), cwd=HERE)
    for l in r.stdout.decode().splitlines():
        if l.startswith('CFG'):
            return json.loads(l[3:])
    print('ERROR: cannot load property module\n' + r.stderr.decode()[-4000:])
    sys.exit(2)


def explore(args):
    t0 = time.monotonic()
    pid = args.id
    cfg = static_cfg(pid)
    runs_cfg = cfg.get('RUNS', {'quick': 1500, 'thorough': 40000})
    nruns = args.runs or runs_cfg[args.tier]
    budget = args.budget or (150.0 if args.tier == 'quick' else 780.0)
    known = known_findings(pid)
    jobs = max(1, min(args.jobs, nruns))
    workers = []
    for k in range(jobs):
        workers.append(Worker([pid, '--worker', str(k), '--jobs', str(jobs), '--runs', str(nruns),
                               '--start', str(args.start), '--vseed', args.vseed,
                               '--tier', args.tier, '--budget', str(budget)], args.hashseed))
    results = {}
    errors = []
    found = {}       # index -> list of unknown violations
    known_hits = {}
    hung = []
    died = []        # e.g. for want of memory
    stop_at = None
    while any(not w.done for w in workers):
        for w in workers:
            if w.done:
                continue
            exited = w.p.poll() is not None         # asked first: nothing it wrote may be missed
            lines = w.poll()
            for l in lines:
                if l.startswith('S '):
                    w.current = int(l[2:])
                elif l.startswith('R '):
                    i, r = json.loads(l[2:])
                    results[i] = r
                    w.current = None
                    unknown = []
                    for v in r['violations']:
                        k = is_known(v, known)
                        if k:
                            known_hits.setdefault(k['id'], [k, 0, i])[1] += 1
                        else:
                            unknown.append(v)
                    if unknown:
                        found[i] = unknown
                elif l.startswith('E '):
                    errors.append(json.loads(l[2:]))
                elif l == 'D':
                    w.done = True
            if not w.done:
                if exited:
                    w.done = True
                    died.append([w.current, 'worker died with code %r: %s' % (
                        w.p.returncode, w.err.decode('utf-8', 'replace'))])
                elif time.monotonic() - w.last > RUN_WALL:
                    hung.append(w.current)
                    w.kill()
                    w.done = True
        if found and not args.keep_going and stop_at is None:
            stop_at = time.monotonic() + 3.0
        if stop_at and time.monotonic() > stop_at:
            break
        time.sleep(0.02)
    for w in workers:
        w.kill()
    wall_explore = time.monotonic() - t0
    if args.digests:
        for i in sorted(results):
            print(i, results[i]['digest'], results[i]['ended'], len(results[i]['violations']))
        for e in errors:
            print('ERROR', e)
        return 0

    violation_line = None
    rdir = os.path.join(HERE, 'replays')
    for i, what in died:
        print('  worker ended early at run %s, trying that run again: %s' % (i, what[-300:]))
        if i is None:
            continue
        path = os.path.join(rdir, '%s-died-%d.json' % (pid, i))
        save(path, {'property': pid, 'scenario': gen_scenario(pid, args, i),
                    'violation': {'kind': 'died', 'msg': ''}})
        r = run_file(pid, path)
        if r.get('hang'):
            hung.append(i)
        elif r.get('error'):
            errors.append([i, what + r['error']])
        else:
            results[i] = strip(r)
            unknown = [v for v in r['violations'] if not is_known(v, known)]
            if unknown:
                found[i] = unknown
    for i in hung:
        if i is None:
            errors.append([None, 'worker hung outside a run'])
            continue
        path = os.path.join(rdir, '%s-hang-%d.json' % (pid, i))
        sc = gen_scenario(pid, args, i)
        save(path, {'property': pid, 'scenario': sc, 'violation': {'kind': 'hang', 'msg': ''}})
        r = run_file(pid, path)
        if r.get('hang'):
            print('  hang: run %d never returns to the simulator' % i)
            violation_line = 'VIOLATION property=%s replay=%s' % (pid, path)
        elif r.get('error'):
            errors.append([i, r['error']])
    if found:
        i = min(found)
        v = found[i][0]
        sc = gen_scenario(pid, args, i)
        path = os.path.join(rdir, '%s-%s-%d.json' % (pid, args.vseed, i))
        rep = {'property': pid, 'scenario': sc, 'violation': v, 'digest': results[i]['digest'],
               'minimised': False}
        save(path, rep)
        if not args.no_minimise:
            msc = run_minimise(pid, sc, v['kind'])
            if msc is not None:
                save(path, dict(rep, scenario=msc, minimised=True))
                r = run_file(pid, path)
                same = [x for x in r.get('violations', []) if x['kind'] == v['kind']]
                if same:
                    save(path, dict(rep, scenario=msc, minimised=True, violation=same[0],
                                    digest=r['digest']))
                    v = same[0]
                else:
                    save(path, rep)
        print('  run %d (seed %s): %s: %s' % (i, sc['seed'], v['kind'], v['msg'][:1500]))
        violation_line = 'VIOLATION property=%s replay=%s' % (pid, path)
    for kid, (k, n, i) in sorted(known_hits.items()):
        print('KNOWN-FINDING: property=%s %s (%d times, first in run %d)' % (
            pid, k['what'], n, i))
    # a known finding is listed even when this batch did not reach it
    for k in known:
        if k['id'] not in known_hits:
            print('KNOWN-FINDING: property=%s %s (not reached in this batch)' % (pid, k['what']))
    write_evidence(args, cfg, results, found, errors, hung, time.monotonic() - t0, wall_explore,
                   nruns, jobs, known_hits)
    print('%s: %d runs, %d distinct, %d violating, %d errors, %.1f s' % (
        pid, len(results), len(set(r['digest'] for r in results.values())), len(found),
        len(errors), time.monotonic() - t0))
    if violation_line:
        print(violation_line)
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR run %s: %s' % (e[0], e[1]))
        return 2
    if len(results) < min(nruns, max(20, nruns // 20)):
        print('ERROR: only %d of %d runs completed' % (len(results), nruns))
        return 2
    return 0


def gen_scenario(pid, args, index):
    r = subprocess.run([PY, '-c',
                        'import sys,json;sys.path.insert(0,%r);import run;'
                        'm=run.load(%r);print("SC"+json.dumps(run.scenario(m,%r,%d,%r)))'
                        % (HERE, pid, args.vseed, index, args.tier)],
                       stdout=subprocess.PIPE, env=env(), cwd=HERE)
    for l in r.stdout.decode().splitlines():
        if l.startswith('SC'):
            return json.loads(l[2:])
    raise RuntimeError('cannot regenerate scenario %d' % index)


def run_minimise(pid, sc, kind, budget=45.0):
    path = os.path.join(HERE, 'replays', '%s-min-tmp-%d.json' % (pid, os.getpid()))
    save(path, {'scenario': sc, 'kind': kind})
    w = Worker([pid, '--minimise', path, '--budget', str(budget)])
    res = None
    try:
        while True:
            lines = w.poll()
            for l in lines:
                if l.startswith('M '):
                    d = json.loads(l[2:])
                    res = d.get('scenario') if d['ok'] else None
            if w.p.poll() is not None:
                for l in w.poll():
                    if l.startswith('M '):
                        d = json.loads(l[2:])
                        res = d.get('scenario') if d['ok'] else None
                return res
            if time.monotonic() - w.last > RUN_WALL:
                return None
            time.sleep(0.02)
    finally:
        w.kill()
        if os.path.exists(path):
            os.unlink(path)


def write_evidence(args, cfg, results, found, errors, hung, wall, wall_explore, nruns, jobs,
                   known_hits):
    faults, probes = {}, {}
    fault_runs = {}
    simtime = steps = switches = ops = 0
    ended = {}
    nontrivial = set()
    for i, r in results.items():
        for k, n in r['faults'].items():
            faults[k] = faults.get(k, 0) + n
            fault_runs[k] = fault_runs.get(k, 0) + 1
        for k, n in r['probes'].items():
            probes[k] = probes.get(k, 0) + n
        simtime += r['simtime']
        steps += r['steps']
        switches += r['switches']
        ops += r['ops']
        ended[r['ended']] = ended.get(r['ended'], 0) + 1
        if r['ops'] >= 2 and (r['faults'] or r['switches'] or r['ops'] >= 4):
            nontrivial.add(r['digest'])
    n = len(results)
    samples = []
    for i in sorted(results):
        if 'scenario' in results[i]:
            samples.append({'index': i, 'digest': results[i]['digest'],
                            'scenario': results[i]['scenario'], 'faults': results[i]['faults']})
    ev = {
        'property': args.id, 'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick',
        'seed': int(args.vseed) if args.vseed.isdigit() else 0,
        'level': 'exploration',
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(nontrivial),
            'rule': cfg.get('RULE', '') + ' | counted: distinct sha1 digests over the full event '
                    'log (scheduling picks, deliveries, poll results, handler calls) of runs that '
                    'executed >=2 scenario operations and either >=4 operations, a fault or a '
                    'thread switch',
            'samples': samples[:2],
            'planned_runs': nruns,
            'runs_per_hour': int(n / max(wall_explore, 0.001) * 3600),
            'seeds': {'verif_seed': args.vseed, 'first_index': args.start, 'count': n},
            'simulated_seconds': round(simtime, 1),
            'scheduler_steps': steps,
            'thread_switches': switches,
            'scenario_operations': ops,
            'distinct_interleavings': len(set(r['digest'] for r in results.values())),
            'faults_fired': faults,
            'runs_with_fault': fault_runs,
            'probes': probes,
            'runs_ended': ended,
            'real_components': cfg.get('REAL', []),
            'stubbed_components': cfg.get('STUB', []),
            'known_findings_hit': {k: v[1] for k, v in known_hits.items()},
            'errors': len(errors), 'hung': len(hung), 'workers': jobs,
        },
        'assumptions': cfg.get('ASSUME', []),
        'violations': len(found),
        'wall_s': round(wall, 2),
    }
    save(os.path.join(HERE, 'evidence', '%s.json' % args.id), ev)


if __name__ == '__main__':
    sys.exit(main())
