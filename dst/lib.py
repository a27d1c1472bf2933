"""Helpers shared by the property scenarios (they run as user programs in the simulation)."""
import traceback

from .kernel import US, MS, SEC, HarnessError
from . import kernel as kmod


class Mail:
    """God's-eye rendezvous between harness programs (not part of the system)."""

    def __init__(self, world):
        self.k = world.k
        self.box = {}
        self.waiting = []
        self.counts = {}

    def put(self, name, value=True):
        self.box[name] = value
        self._wake()

    def incr(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1
        self._wake()

    def _wake(self):
        for t in list(self.waiting):
            self.k.unpark(t)

    def wait(self, pred, timeout=None):
        k = self.k
        end = None if timeout is None else k.now + int(timeout * SEC)
        t = k.current
        while not pred():
            if end is not None and k.now >= end:
                return False
            self.waiting.append(t)
            k.park(end, on='harness rendezvous')
            self.waiting.remove(t)
        return True

    def get(self, name, timeout=None):
        if not self.wait(lambda: name in self.box, timeout):
            return None
        return self.box[name]

    def wait_count(self, name, n, timeout=None):
        return self.wait(lambda: self.counts.get(name, 0) >= n, timeout)


def setup_common(world, spec):
    world.mail = Mail(world)
    world.ctx = {}
    hosts = spec.get('hosts') or [{'name': 'alpha', 'ip': '10.0.0.1'}]
    for i, h in enumerate(hosts):
        world.add_host(h['name'], h['ip'], wall_offset=h.get('wall', 0), mono_offset=h.get('mono', (i + 1) * 1000 * SEC),
                       drift_ppm=h.get('drift', 0))
    for f in spec.get('faults', ()):
        world.k.at(int(f['t'] * SEC), apply_fault, world, f)


def host(world, name):
    for h in world.hosts:
        if h.name == name:
            return h
    raise HarnessError('no host ' + name)


def find_proc(world, name):
    r = None
    for p in world.all_procs:
        if p.name == name and p.state == 'running':
            r = p
    return r


def apply_fault(world, f):
    k = world.k
    kind = f['kind']
    world.ctx.setdefault('faults_applied', []).append((k.now, f))
    if kind == 'partition':
        world.net.partition(host(world, f['a']), host(world, f['b']), int(f['dur'] * SEC))
    elif kind == 'reset':
        world.net.reset(f.get('n', 0))
    elif kind == 'stall':
        p = find_proc(world, f['proc'])
        if p is not None:
            p.stall(int(f['dur'] * SEC))
    elif kind == 'jump':
        host(world, f['host']).jump(int(f['by'] * SEC))
    elif kind == 'kill':
        p = find_proc(world, f['proc'])
        if p is not None:
            k.fault('process_kill')
            p.die(-9, killed=True)
    elif kind == 'hostdown':
        host(world, f['host']).down = True
        k.fault('host_down')
    else:
        raise HarnessError('fault %r' % kind)


def guarded(world, fn, *args, **kw):
    """Run fn; -> ('ok', value) or ('exc', type name, text, exception)."""
    try:
        return ('ok', fn(*args, **kw))
    except HarnessError:
        raise
    except Exception as e:
        return ('exc', type(e).__name__, str(e), e)


def tb():
    return traceback.format_exc()[-1500:]


def stalls_between(world, t0, t1):
    """Total simulated ns of injected stalls/partitions overlapping [t0, t1]."""
    tot = 0
    for t, f in world.ctx.get('faults_applied', ()):
        if f['kind'] in ('stall', 'partition'):
            a, b = t, t + int(f['dur'] * SEC)
            tot += max(0, min(b, t1) - max(a, t0))
    return tot


# ---- random configuration ("swarm": every run draws its own regime) ----------------
def gen_cfg(rng, lines=True, hwm=False):
    cfg = {
        'p_switch': rng.choice([0.0, 0.05, 0.15, 0.3, 0.6]),
        'wake_delays': rng.choice([[0], [0, 0, 20 * US], [0, 5 * US, 50 * US, 300 * US], [0, 0, 0, 2 * MS, 20 * MS]]),
        'net_delays': rng.choice([[50 * US], [50 * US, 50 * US, 300 * US], [30 * US, 1 * MS, 5 * MS],
                                  [50 * US, 50 * US, 50 * US, 40 * MS], [200 * US, 200 * US, 150 * MS]]),
        'line_mean': rng.choice([0, 0, 200, 60, 20, 8]) if lines else 0,
        'step_ns': rng.choice([1 * US, 1 * US, 5 * US, 200]),
        'ident_reuse': rng.random() < 0.5,
        'pid_reuse': rng.random() < 0.5,
        'id_reuse': rng.random() < 0.8,
        'port_reuse': rng.random() < 0.5,
        'short_reads': rng.random() < 0.5,
    }
    if hwm:
        cfg['hwm'] = rng.choice([1000, 1000, 20, 5])
    return cfg


# ---- linearizability (Wing & Gong search with memoisation) --------------------------
def linearizable(ops, init, apply):
    """ops: [(start, end_or_None, op, result_or_None)]; result None with end None = unknown
    outcome, which may take effect at any later time or never.
    apply(state, op) -> (new_state, result); states hashable."""
    n = len(ops)
    must = [i for i in range(n) if ops[i][1] is not None]
    full = 0
    for i in must:
        full |= 1 << i
    seen = set()
    stack = [(0, init)]
    while stack:
        done, st = stack.pop()
        if done & full == full:
            return True
        if (done, st) in seen:
            continue
        seen.add((done, st))
        # earliest end among undone completed ops bounds who may go next
        lim = min((ops[i][1] for i in must if not done >> i & 1), default=None)
        for i in range(n):
            if done >> i & 1:
                continue
            s, e, op, res = ops[i]
            if lim is not None and s > lim:
                continue
            st2, r = apply(st, op)
            if e is not None and r != res:
                continue
            stack.append((done | 1 << i, st2))
    return False
