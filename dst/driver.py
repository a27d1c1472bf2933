"""Search driver: many seeded simulated runs in parallel, replay, minimisation, evidence.

    driver.py check <ID> [--tier quick|thorough] [--runs N] [--seed S]
    driver.py replay <file>
    driver.py selftest [ID ...]
    driver.py one <ID> <index>          (debugging: run one index verbosely)
"""
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from dst import kernel, modules, osmodel     # noqa: E402

RUN_WALL = 60.0         # wall seconds one simulated run may take
RUN_MEM = 3 << 30       # memory it may use
WALL_CPU = 25.0         # a run that was stopped after this much CPU time would not have ended on an idle machine either
VIOL_STOP = 12
FINDINGS = os.path.join(VERIF, 'known-findings.txt')
REPLAYS = os.path.join(VERIF, 'replays')


def load_prop(pid):
    return importlib.import_module('props.' + pid.lower())


def run_seed(base, pid, i):
    return int.from_bytes(hashlib.sha256(('%s/%s/%s' % (base, pid, i)).encode()).digest()[:7], 'big')


# ---- one simulated run (inside a forked process) ------------------------------
def execute(prop, spec, seed=None, fixed=None):
    """Run one simulation to its end in this process; returns the result dict."""
    gc.disable()
    ch = kernel.Choices(seed, fixed)
    k = kernel.Kernel(ch, spec.get('cfg'))
    world = osmodel.World(k, spec.get('world_seed', 0))

    def unraisable(a):
        # "Exception ignored in __del__" of simulated programs
        if isinstance(a.exc_value, kernel.HarnessError):
            k.harness_error('in a finalizer: %r' % a.exc_value)
        else:
            k.probe('exception_in_finalizer')
    sys.unraisablehook = unraisable
    res = {}
    violations = []
    try:
        prop.setup(world, spec)
        outcome = k.run()
        if k.harness_errors:
            outcome = 'harness_error'
        if outcome != 'harness_error':
            kernel.K = None
            violations = prop.check(world, spec) or []
            for a in k.anomalies:
                if a['class'] in getattr(prop, 'ANOMALIES', ()):
                    violations.append({'class': a['class'], 'msg': a['msg']})
    except kernel.HarnessError:
        k.harness_errors.append(traceback.format_exc())
        outcome = 'harness_error'
    except BaseException:
        k.harness_errors.append('checker: ' + traceback.format_exc())
        outcome = 'harness_error'
    res.update(outcome=outcome, violations=violations[:5], harness=k.harness_errors[:3],
               full='%016x' % (k.h_full ^ (len(k.history) * 0x9E3779B97F4A7C15 & 0xFFFFFFFFFFFFFFFF)),
               inter='%016x' % k.h_inter, steps=k.steps, lines=k.lines, switches=k.switches, sim_ns=k.now,
               faults=k.faults, probes=k.probes, nchoices=ch.i, msgs=world.net.msgs, procs=len(world.all_procs),
               nontrivial=bool(prop.nontrivial(world, spec)) if hasattr(prop, 'nontrivial') and
               outcome != 'harness_error' else True,
               hist=len(k.history), blocked=getattr(k, 'blocked_report', [])[:12])
    res['taken'] = ch.taken
    return res, k, world


def fork_run(prop, spec, seed=None, fixed=None, want_taken=False, want_history=False, wall=RUN_WALL):
    """Execute in a forked child; -> result dict ('crashed'/'wall' outcomes on harness trouble)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            if not os.environ.get('DST_DEBUG'):
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 1)
            res, k, world = execute(prop, spec, seed, fixed)
            if not want_taken and not res['violations']:
                res.pop('taken', None)
            if want_history:
                res['history'] = k.history[-int(os.environ.get('DST_HIST', '400')):]
            data = json.dumps(res, default=repr).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + wall
    timed_out = big = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if not rd:
            big = memory(pid) > RUN_MEM
            if big:
                timed_out = True
                break
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st, ru = os.wait4(pid, 0)
    if timed_out:
        return {'outcome': 'wall', 'violations': [], 'endless': big or ru.ru_utime + ru.ru_stime > WALL_CPU,
                'harness': ['run exceeded %s' % ('its memory' if big else '%ss of wall time' % wall)]}
    try:
        res = json.loads(b''.join(buf))
    except ValueError:
        return {'outcome': 'crashed', 'violations': [], 'harness': ['run process ended with status %r' % st]}
    if 'taken' in res:
        res['taken'] = {int(a): b for a, b in res['taken'].items()}
    return res


def memory(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * 4096
    except OSError:
        return 0


def confirm_endless(prop, spec, seed):
    """A run that was stopped, alone: a busy machine is not a result, but a run that never ends is one."""
    res = fork_run(prop, spec, seed=seed, wall=2 * RUN_WALL)
    if res['outcome'] == 'wall' and res['endless']:
        res.update(outcome='endless', harness=[], violations=[{
            'class': 'never-ends', 'msg': 'the simulated processes go on for ever without any progress of the simulated time'}])
    return res


# ---- parallel search ----------------------------------------------------------
def worker(prop, pid, base_seed, tier, idx, n, total, w, deadline):
    out = os.fdopen(w, 'wb', buffering=0)
    try:
        for i in range(idx, total, n):
            if time.monotonic() > deadline:
                out.write(json.dumps({'i': i, 'skipped': True}).encode() + b'\n')
                break
            s = run_seed(base_seed, pid, i)
            spec = make_spec(prop, s, tier, i)
            res = fork_run(prop, spec, seed=s)
            res['i'] = i
            res['seed'] = s
            res['ops'] = prop.describe(spec) if hasattr(prop, 'describe') and i < 3 else None
            res.pop('taken', None)
            data = json.dumps(res).encode() + b'\n'
            while data:
                m = out.write(data)
                data = data[m:]
            if res['outcome'] == 'wall':
                break                   # (looked at again, alone)
    except BaseException:
        out.write(json.dumps({'i': -1, 'outcome': 'crashed', 'violations': [],
                              'harness': [traceback.format_exc()]}).encode() + b'\n')
    finally:
        os._exit(0)


def make_spec(prop, seed, tier, i=0):
    spec = prop.gen(random.Random(seed), tier, i)
    spec.setdefault('world_seed', seed & 0xFFFFFFFF)
    # specs are JSON values: what a replay file holds is what a run used
    return json.loads(json.dumps(spec))


def search(prop, pid, base_seed, tier, total, budget_s, nworkers):
    deadline = time.monotonic() + budget_s
    fds, pids = {}, []
    for j in range(nworkers):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            worker(prop, pid, base_seed, tier, j, nworkers, total, w, deadline)
        os.close(w)
        fds[r] = b''
        pids.append(p)
    results = []
    viol = 0
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                del fds[r]
                os.close(r)
                continue
            lines = (fds[r] + b).split(b'\n')
            fds[r] = lines[-1]
            for ln in lines[:-1]:
                d = json.loads(ln)
                results.append(d)
                if d.get('violations'):
                    viol += 1
        if viol >= VIOL_STOP:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
    for r in list(fds):
        os.close(r)
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    return results


# ---- minimisation ---------------------------------------------------------------
def sig_of(res):
    return sorted({v['class'] for v in res.get('violations', ())})


def minimise(prop, spec, seed, cls, wall=45.0):
    """Smaller spec and sparser choices with the same violation class."""
    end = time.monotonic() + wall
    best = fork_run(prop, spec, seed=seed, want_taken=True)
    if cls not in sig_of(best):
        return None
    runs = 1
    best_spec = spec
    best_seed = seed

    def attempt(sp, seeds):
        nonlocal runs
        for s in seeds:
            if time.monotonic() > end:
                return None
            runs += 1
            try:
                r = fork_run(prop, sp, seed=s, want_taken=True, wall=20)
            except Exception:
                continue
            if cls in sig_of(r):
                return r, s
        return None

    changed = True
    shr = getattr(prop, 'shrink', default_shrink)
    while changed and time.monotonic() < end:
        changed = False
        for cand in shr(best_spec):
            if time.monotonic() > end:
                break
            cand = json.loads(json.dumps(cand))
            got = attempt(cand, [best_seed, best_seed + 1])
            if got:
                best, best_seed = got
                best_spec = cand
                changed = True
                break
    taken = dict(best['taken'])
    # sparser schedule: drop chunks of non-default choices
    n = 2
    end2 = time.monotonic() + wall / 2
    keys = sorted(taken)
    while keys and time.monotonic() < end2:
        size = max(1, len(keys) // n)
        dropped = False
        for a in range(0, len(keys), size):
            rest = keys[:a] + keys[a + size:]
            if time.monotonic() > end2:
                break
            runs += 1
            r = fork_run(prop, best_spec, fixed={q: taken[q] for q in rest}, want_taken=True, wall=20)
            if cls in sig_of(r):
                keys = [q for q in rest if q in r['taken']]
                taken = {q: r['taken'][q] for q in keys}
                dropped = True
                n = max(2, n - 1)
                break
        if not dropped:
            if size == 1:
                break
            n = min(len(keys), n * 2)
    final = fork_run(prop, best_spec, fixed=taken, want_taken=True, want_history=True)
    if cls not in sig_of(final):
        final = fork_run(prop, best_spec, fixed=best['taken'], want_taken=True, want_history=True)
        taken = best['taken']
        if cls not in sig_of(final):
            return None
    return best_spec, taken, final, runs


def default_shrink(spec):
    """Candidates with parts of every list under spec removed (largest cuts first)."""
    paths = []

    def walk(o, path):
        if isinstance(o, dict):
            for key in sorted(o):
                if key != 'cfg':
                    walk(o[key], path + [key])
        elif isinstance(o, list):
            if len(o) > 0 and path and path[-1] in ('ops', 'faults', 'clients', 'threads', 'servers_ops', 'events',
                                                    'records', 'steps'):
                paths.append((len(o), path))
            for i, x in enumerate(o):
                if isinstance(x, (dict, list)):
                    walk(x, path + [i])
    walk(spec, [])
    paths.sort(key=lambda p: -p[0])

    def without(path, a, b):
        c = json.loads(json.dumps(spec))
        o = c
        for p in path[:-1]:
            o = o[p]
        lst = o[path[-1]]
        del lst[a:b]
        return c
    for n, path in paths:
        if n >= 4:
            yield without(path, n // 2, n)
            yield without(path, 0, n // 2)
    for n, path in paths:
        for i in reversed(range(n)):
            yield without(path, i, i + 1)


# ---- findings file ----------------------------------------------------------------
def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                rest = ln.split(' ', 2)[2]
                sig, _, what = rest.partition(' ')
                out.append((sig.removeprefix('class='), what))
    return out


# ---- commands -----------------------------------------------------------------------
def cmd_check(pid, tier, runs, seed, evidence=True):
    t0 = time.monotonic()
    modules.precompile()
    prop = load_prop(pid)
    try:
        import numpy, msgpack          # noqa: F401  (loaded once, before forking)
    except ImportError:
        pass
    gc.collect()
    gc.freeze()
    total = runs or prop.RUNS[tier]
    budget = float(os.environ.get('DST_BUDGET', prop.BUDGET[tier] if hasattr(prop, 'BUDGET') else
                                  {'quick': 150, 'thorough': 780}[tier]))
    nw = int(os.environ.get('DST_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    results = search(prop, pid, seed, tier, total, budget, nw)
    done = [r for r in results if not r.get('skipped')]
    endless = False
    for r in [r for r in done if r['outcome'] == 'wall']:
        if endless or any(x.get('violations') for x in done):
            done.remove(r)
            continue
        r.update(confirm_endless(prop, make_spec(prop, r['seed'], tier, r['i']), r['seed']))
        r.pop('taken', None)
        endless = r['outcome'] == 'endless'
    bad = [r for r in done if r.get('harness') or r['outcome'] in ('crashed', 'wall', 'harness_error')]
    viols = [r for r in done if r.get('violations')]
    known = known_findings(pid)
    kn_hits, new = {}, {}
    for r in sorted(viols, key=lambda r: r['i']):
        for v in r['violations']:
            for sig, what in known:
                if v['class'] == sig:
                    kn_hits[sig] = what
                    break
            else:
                new.setdefault(v['class'], (r, v))
    for sig, what in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    exit_code = 0
    reports = []
    if new:
        exit_code = 1
        os.makedirs(REPLAYS, exist_ok=True)
        for cls in sorted(new, key=lambda c: new[c][0]['i'])[:3]:
            r, v = new[cls]
            spec = make_spec(prop, r['seed'], tier, r['i'])
            if cls == 'never-ends':
                m = (spec, {}, r, 1)
            else:
                m = minimise(prop, spec, r['seed'], cls, wall=40.0 if not reports else 15.0)
            path = os.path.join(REPLAYS, '%s-%s-%s.json' % (pid, cls.replace('/', '_'), r['seed']))
            if m is None:
                # report unminimised
                res = fork_run(prop, spec, seed=r['seed'], want_taken=True, want_history=True)
                m = (spec, res.get('taken', {}), res, 1)
            msp, taken, final, n = m
            msg = next((x['msg'] for x in final['violations'] if x['class'] == cls), v['msg'])
            with open(path, 'w') as f:
                json.dump({'property': pid, 'class': cls, 'msg': msg, 'seed': r['seed'], 'base_seed': seed,
                           'tier': tier, 'index': r['i'], 'spec': msp,
                           'choices': {str(a): b for a, b in sorted(taken.items())},
                           'digest': final.get('full'), 'minimisation_runs': n,
                           'outcome': final['outcome'], 'faults': final.get('faults'),
                           'blocked': final.get('blocked'),
                           'history': final.get('history')}, f, indent=1, default=repr)
            print('%s: %s: %s' % (pid, cls, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
            reports.append(path)
    if bad and not new:
        print('HARNESS-ERROR %s: %d of %d runs' % (pid, len(bad), len(done)))
        for r in bad[:3]:
            print(' run %s seed %s outcome %s\n%s' % (r.get('i'), r.get('seed'), r['outcome'],
                                                     '\n'.join(r['harness'])[:3000]))
        exit_code = 2
    if not done and exit_code == 0:
        print('HARNESS-ERROR %s: nothing ran' % pid)
        exit_code = 2
    wall = time.monotonic() - t0
    if evidence:
        write_evidence(prop, pid, tier, seed, done, total, wall, viols, bad, kn_hits)
    print('%s %s: %d/%d runs, %d violations, %d harness errors, %.1fs' % (
        pid, tier, len(done), total, len(viols), len(bad), wall))
    return exit_code


def write_evidence(prop, pid, tier, seed, done, total, wall, viols, bad, kn):
    ok = [r for r in done if 'inter' in r]
    faults, probes, outcomes = {}, {}, {}
    for r in ok:
        for a, b in r['faults'].items():
            faults[a] = faults.get(a, 0) + b
        for a, b in r['probes'].items():
            probes[a] = probes.get(a, 0) + b
    for r in done:
        outcomes[r['outcome']] = outcomes.get(r['outcome'], 0) + 1
    nontriv = {r['inter'] for r in ok if r.get('nontrivial')}
    sim_s = sum(r['sim_ns'] for r in ok) / 1e9
    samples = [{'index': r['i'], 'seed': r['seed'], 'case': r['ops'], 'digest': r['full'], 'sim_s': r['sim_ns'] / 1e9,
                'steps': r['steps'], 'faults': r['faults'], 'outcome': r['outcome']}
               for r in sorted(ok, key=lambda r: r['i']) if r.get('ops')][:3]
    if not samples:
        samples = [{'index': r['i'], 'seed': r['seed'], 'digest': r['full']} for r in ok[:2]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(ok),
            'distinct_nontrivial': len(nontriv),
            'rule': 'one evaluation = one simulated run of the real code; cases: ' + prop.RULE +
                    '; counted once per distinct task-interleaving digest (sequence of scheduled tasks)',
            'samples': samples,
            'runs_planned': total,
            'runs_per_hour': int(len(ok) / wall * 3600) if wall else 0,
            'seeds_per_hour': int(len({r['seed'] for r in ok}) / wall * 3600) if wall else 0,
            'simulated_seconds': round(sim_s, 3),
            'scheduling_points': sum(r['steps'] for r in ok),
            'source_lines_executed': sum(r['lines'] for r in ok),
            'task_switches': sum(r['switches'] for r in ok),
            'messages_on_the_wire': sum(r['msgs'] for r in ok),
            'simulated_processes': sum(r['procs'] for r in ok),
            'faults_injected': faults,
            'probes_reached': probes,
            'distinct_interleavings': len({r['inter'] for r in ok}),
            'distinct_interleavings_measure': 'hash of the sequence of (task chosen) at every hand-off',
            'outcomes': outcomes,
            'harness_errors': len(bad),
            'known_findings_seen': sorted(kn),
            'real_components': 'all of teleprox/*.py; stdlib threading, queue, logging, concurrent.futures, '
                               'pickle, argparse, json, traceback; msgpack; numpy',
            'stub_components': 'libzmq/pyzmq, TCP, clocks, thread primitives and scheduler, processes, fork, signals, '
                               'pipes, shared memory, randomness, PyQt5 (signals, event loop, QThread)',
        },
        'assumptions': list(getattr(prop, 'ASSUMPTIONS', ())) + [
            'the simulated zmq/OS/Qt behave as the real ones in the respects dst/conformance.py compares',
            'preemption at primitives and source lines of teleprox only'],
        'wall_s': round(wall, 2),
        'violations': len(viols),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))


def cmd_replay(path):
    d = json.load(open(path))
    modules.precompile()
    prop = load_prop(d['property'])
    fixed = {int(a): b for a, b in d['choices'].items()}
    if d['class'] == 'never-ends':      # (such a run cannot tell its choices: they are those of its seed)
        r = confirm_endless(prop, d['spec'], d['seed'])
    else:
        r = fork_run(prop, d['spec'], fixed=fixed, want_taken=True, want_history=True)
    print('outcome %s digest %s (recorded %s)' % (r['outcome'], r.get('full'), d['digest']))
    for v in r.get('violations', ()):
        print('%s: %s' % (v['class'], v['msg']))
    if r.get('harness'):
        print('\n'.join(r['harness']))
        return 2
    if d['class'] in sig_of(r):
        print('digest %s' % ('identical' if r.get('full') == d['digest'] else 'DIFFERS (code changed?)'))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('the recorded violation does not occur on this tree')
    return 0


def cmd_one(pid, i, tier, seed, verbose=True):
    modules.precompile()
    prop = load_prop(pid)
    s = run_seed(seed, pid, i)
    spec = make_spec(prop, s, tier, i)
    r = fork_run(prop, spec, seed=s, want_taken=True, want_history=True, wall=600)
    print(json.dumps(spec, indent=None)[:6000])
    for h in r.get('history', ())[-int(os.environ.get('DST_HIST', '120')):]:
        print('  %12.6f %s' % (h.pop('t') / 1e9, json.dumps(h, default=repr)[:300]))
    r.pop('history', None)
    tk = r.pop('taken', {})
    print(json.dumps({a: b for a, b in r.items() if a != 'harness'}, indent=None))
    print('\n'.join(r.get('harness', ())))
    print('choices taken: %d' % len(tk))
    return 1 if r['violations'] else 0


def cmd_selftest(pids, n=40):
    """Determinism: every (property, index) twice, in differently placed processes."""
    modules.precompile()
    bad = tot = 0
    import glob
    if not pids:
        pids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(VERIF, 'props', 'c*.py')))
    digests = {}
    for pid in pids:
        prop = load_prop(pid)
        for i in range(n):
            s = run_seed(1, pid, i)
            spec = make_spec(prop, s, 'quick', i)
            a = fork_run(prop, spec, seed=s, want_taken=True)
            b = fork_run(prop, spec, fixed=a.get('taken', {}))
            tot += 1
            if a.get('full') != b.get('full') or a['outcome'] != b['outcome']:
                bad += 1
                print('NONDETERMINISTIC %s index %d: %s/%s vs %s/%s' % (pid, i, a['outcome'], a.get('full'),
                                                                      b['outcome'], b.get('full')))
            digests['%s/%d' % (pid, i)] = a.get('full')
    h = hashlib.sha256(json.dumps(digests, sort_keys=True).encode()).hexdigest()[:16]
    print('selftest: %d runs twice, %d differ; combined digest %s' % (tot, bad, h))
    return 2 if bad else 0


def main(argv):
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.setrecursionlimit(3000)
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('cmd')
    p.add_argument('args', nargs='*')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--runs', type=int, default=0)
    p.add_argument('--no-evidence', action='store_true')
    a = p.parse_args(argv)
    if a.cmd == 'check':
        return cmd_check(a.args[0], a.tier, a.runs, a.seed, not a.no_evidence)
    if a.cmd == 'replay':
        return cmd_replay(a.args[0])
    if a.cmd == 'one':
        return cmd_one(a.args[0], int(a.args[1]), a.tier, a.seed)
    if a.cmd == 'selftest':
        return cmd_selftest([x.upper() for x in a.args], a.runs or 40)
    print('unknown command')
    return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
