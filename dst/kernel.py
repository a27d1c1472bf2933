"""Deterministic simulation kernel.

Simulated tasks are real OS threads of which exactly one runs at any time; the
kernel alone decides which one, at every intercepted primitive and (when line
preemption is on) at executed source lines of the code under test.  Time is
simulated.  Every decision comes from one `Choices` stream, so a run is a pure
function of (spec, seed) or of (spec, recorded choices).
"""
import _thread
import heapq
import random
import sys
import traceback
import zlib

NS = 1
US = 1000
MS = 1000 * US
SEC = 1000 * MS

READY, RUNNING, BLOCKED, DEAD = 'ready', 'running', 'blocked', 'dead'


class HarnessError(Exception):
    """The simulator itself (not the code under test) cannot continue."""


class Choices:
    """The one source of nondeterminism.  Value 0 is always the benign default
    (stay on the current task, no delay, no fault), which is what a replay uses
    past its recorded choices and what minimisation moves towards."""

    def __init__(self, seed=None, fixed=None):
        self.rng = random.Random(seed) if fixed is None else None
        self.fixed = fixed
        self.i = 0
        self.taken = {}

    def pick(self, n):
        if n <= 1:
            return 0
        i = self.i
        self.i = i + 1
        if self.rng is not None:
            v = int(self.rng.random() * n)
        else:
            v = self.fixed.get(i, 0)
            if v >= n:
                v = n - 1
        if v:
            self.taken[i] = v
        return v

    def flip(self, p):
        if p <= 0:
            return 0
        i = self.i
        self.i = i + 1
        if self.rng is not None:
            v = 1 if self.rng.random() < p else 0
        else:
            v = 1 if self.fixed.get(i, 0) else 0
        if v:
            self.taken[i] = v
        return v

    def table(self, values):
        """Pick from a table whose entry 0 is the benign one."""
        return values[self.pick(len(values))]


class Task:
    __slots__ = ('tid', 'proc', 'name', 'sem', 'state', 'woken', 'park_id', 'spin',
                 'ident', 'blocked_on', 'sentinel', 'started', 'busy_sock', 'locals', 'rid')

    def __init__(self, tid, proc, name):
        self.tid = tid
        self.proc = proc
        self.name = name
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = READY
        self.woken = False
        self.park_id = 0
        self.spin = 0
        self.ident = 0
        self.blocked_on = None
        self.sentinel = None
        self.started = False
        self.busy_sock = None
        self.locals = {}
        self.rid = None

    def __repr__(self):
        return '<%s/%s #%d %s on %s>' % (self.proc.name if self.proc else '-', self.name,
                                         self.tid, self.state, self.blocked_on)


#: the kernel of the run in progress in this (real) process
K = None


def current_kernel():
    return K


DEFAULT_CFG = {
    'p_switch': 0.15,       # chance to switch task at an intercepted primitive
    'line_mean': 0,         # mean number of source lines between preemptions (0: off)
    'wake_delays': [0],     # ns, table (entry 0 benign) for wake-up latency
    'net_delays': [50 * US],
    'step_ns': 1 * US,
    'line_ns': 100,
    'max_steps': 400000,
    'max_lines': 6000000,
    'max_time': 4000 * SEC,
    'max_bytes': 1 << 26,
    'hwm': 1000,
}


class Kernel:
    def __init__(self, choices, cfg=None):
        global K
        self.cfg = dict(DEFAULT_CFG)
        self.cfg.update(cfg or {})
        self.choices = choices
        self.now = 0
        self.heap = []
        self.seq = 0
        self.tasks = []
        self.runq = []
        self.current = None
        self.steps = 0
        self.lines = 0
        self.switches = 0
        self.lost = _thread.allocate_lock()
        self.controller = _thread.allocate_lock()
        self.controller.acquire()
        self.outcome = None
        self.history = []
        self.harness_errors = []
        self.anomalies = []
        self.faults = {}
        self.probes = {}
        self.h_full = 0
        self.h_inter = 0
        self.line_triggers = []     # [(proc, n, fn)]
        self.msg_triggers = {}      # n -> [fn]
        self.msg_count = 0
        self.p_switch = self.cfg['p_switch']
        self.line_mean = self.cfg['line_mean']
        self.step_ns = self.cfg['step_ns']
        self.line_ns = self.cfg['line_ns']
        self.line_countdown = 0
        self._arm_line()
        self.in_kernel = False
        K = self

    # -- recording -----------------------------------------------------------
    def record(self, kind, **kw):
        """Append an event to the god's-eye history (no effect on the schedule)."""
        kw['k'] = kind
        kw['seq'] = len(self.history)
        kw['t'] = self.now
        self.history.append(kw)
        return kw

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def anomaly(self, cls, msg):
        self.anomalies.append({'class': cls, 'msg': msg, 't': self.now, 'seq': len(self.history)})

    def harness_error(self, msg):
        self.harness_errors.append(msg)

    def mix(self, a):
        self.h_full = (self.h_full * 1000003 ^ a) & 0xFFFFFFFFFFFFFFFF

    # -- events --------------------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        ev = [t, self.seq, fn, args]
        heapq.heappush(self.heap, ev)
        return ev

    def after(self, d, fn, *args):
        return self.at(self.now + d, fn, *args)

    @staticmethod
    def cancel(ev):
        ev[2] = None

    def _fire(self):
        heap = self.heap
        while heap and heap[0][0] <= self.now:
            ev = heapq.heappop(heap)
            fn = ev[2]
            if fn is not None:
                try:
                    fn(*ev[3])
                except BaseException:
                    import traceback
                    self.harness_error('event: ' + traceback.format_exc())
                    self.stop('harness_error')

    # -- tasks ---------------------------------------------------------------
    def spawn(self, proc, fn, name='task', ident=None):
        t = Task(len(self.tasks), proc, name)
        self.tasks.append(t)
        t.ident = ident if ident is not None else 1000 + t.tid
        if proc is not None:
            proc.tasks.append(t)

        def boot():
            nonlocal fn
            t.sem.acquire()
            t.rid = _thread.get_ident()
            try:
                try:
                    fn()
                finally:
                    # thread-locals and the thread's function die while the task still runs:
                    # their finalizers are code of the system under test
                    fn = None
                    while t.locals:
                        t.locals.popitem()
            except SystemExit:
                pass
            except BaseException as e:      # harness bug: sim tasks catch their own
                import traceback
                self.harness_error('task %s died: %s' % (t.name, ''.join(
                    traceback.format_exception(e))))
            self._task_done(t)
        _thread.start_new_thread(boot, ())
        t.started = True
        self._make_ready(t)
        return t

    def _task_done(self, t):
        t.state = DEAD
        if t.proc is not None and t in t.proc.tasks:
            t.proc.tasks.remove(t)
        self._reschedule(dying=True)

    def _make_ready(self, t, park_id=None):
        if t.state == DEAD or (park_id is not None and t.park_id != park_id):
            return
        if t.state == READY and t in self.runq:
            return
        t.state = READY
        self.runq.append(t)

    def _pick_next(self):
        """Choose the task that runs next.  Current task is not in runq unless READY."""
        while True:
            if self.outcome is not None:
                return None
            if self.heap and self.heap[0][0] <= self.now:
                self._fire()
                if self.outcome is not None:
                    return None
            runq = self.runq
            if runq:
                if self.stalled:
                    ok = [t for t in runq if t.proc is None or t.proc.stalled_until <= self.now]
                else:
                    ok = runq
                if ok:
                    n = len(ok)
                    t = ok[self.choices.pick(n)] if n > 1 else ok[0]
                    runq.remove(t)
                    return t
            if self.heap:
                nt = self.heap[0][0]
                if nt > self.now:
                    self.now = nt
                if self.now > self.cfg['max_time']:
                    self.stop('max_time')
                    return None
                continue
            self.stop('deadlock')
            return None

    stalled = 0

    def _reschedule(self, dying=False):
        cur = self.current
        if cur is not None and cur.rid != _thread.get_ident():
            # code (a finalizer, say) runs outside the task the scheduler believes is running
            self.harness_error('rogue thread: ' + ''.join(traceback.format_stack()[-6:]))
            self.stop('harness_error')
            self.lost.acquire()
            self.lost.acquire()
        nxt = self._pick_next()
        if nxt is None:
            self.current = None
            self.controller.release()
            if dying:
                return
            cur.sem.acquire()       # never released: this run is over
            return
        nxt.state = RUNNING
        self.current = nxt
        self.switches += 1
        self.h_full = (self.h_full * 1000003 ^ (nxt.tid * 7919 + self.now)) & 0xFFFFFFFFFFFFFFFF
        self.h_inter = (self.h_inter * 1000003 ^ (nxt.tid + 1)) & 0xFFFFFFFFFFFFFFFF
        if nxt is cur:
            return
        nxt.sem.release()
        if dying:
            return
        cur.sem.acquire()

    def point(self, kind='op'):
        """A scheduling point inside an intercepted primitive."""
        cur = self.current
        self.steps += 1
        self.now += self.step_ns
        if self.steps > self.cfg['max_steps']:
            self.stop('max_steps')
            self._reschedule()
        if self.heap and self.heap[0][0] <= self.now:
            self._fire()
            if self.outcome is not None or cur.state == DEAD:
                self._reschedule()
        if cur.proc is not None and cur.proc.stalled_until > self.now:
            cur.state = READY
            self.runq.append(cur)
            self._reschedule()
        elif self.runq and self.choices.flip(self.p_switch):
            cur.state = READY
            self.runq.append(cur)
            self._reschedule()

    def yield_now(self):
        cur = self.current
        cur.state = READY
        self.runq.append(cur)
        self._reschedule()

    def park(self, deadline=None, on=None):
        """Block the current task until unpark() or the deadline (sim ns)."""
        t = self.current
        t.state = BLOCKED
        t.woken = False
        t.park_id += 1
        t.blocked_on = on
        ev = None
        if deadline is not None:
            ev = self.at(deadline, self._timeout, t, t.park_id)
        self._reschedule()
        t.blocked_on = None
        if ev is not None:
            ev[2] = None
        return t.woken

    def _timeout(self, t, park_id):
        if t.state == BLOCKED and t.park_id == park_id and not t.woken:
            self._make_ready(t, park_id)

    def unpark(self, t):
        if t.state != BLOCKED or t.woken:
            return
        t.woken = True
        d = self.cfg['wake_delays']
        delay = self.choices.table(d) if len(d) > 1 else d[0]
        if delay:
            self.at(self.now + delay, self._make_ready, t, t.park_id)
        else:
            self._make_ready(t)

    def sleep(self, ns):
        self.current.spin = 0
        self.point('sleep')
        if ns > 0:
            self.park(self.now + int(ns), on='sleep')

    def idle_spin(self):
        """Called when a non-blocking primitive found nothing: repeated empty
        polling gets descheduled for a growing while, so that busy loops cost few
        steps (any OS may do that to a spinning thread)."""
        t = self.current
        t.spin += 1
        if t.spin > 2:
            self.park(self.now + min(2 * MS, (10 * US) << min(t.spin, 12)), on='spin')

    # -- source line hook ----------------------------------------------------
    def _arm_line(self):
        m = self.line_mean
        if not m:
            self.line_countdown = -1
            return
        # 0 (benign) = not for a long while
        v = self.choices.pick(16) or 30
        self.line_countdown = 1 + int(m * v * v / 90)

    def on_line(self, code=None, line=None):
        cur = self.current
        if cur is None:
            return
        self.lines += 1
        self.now += self.line_ns
        if self.lines > self.cfg['max_lines']:
            self.stop('max_lines')
            self._reschedule()
        p = cur.proc
        if p is not None:
            p.lines += 1
            if p.line_trigger and p.lines >= p.line_trigger[0][0]:
                _, fn = p.line_trigger.pop(0)
                fn()
                if cur.state == DEAD or self.outcome is not None:
                    self._reschedule()
        if self.line_countdown > 0:
            self.line_countdown -= 1
            if self.line_countdown == 0:
                self._arm_line()
                if self.heap and self.heap[0][0] <= self.now:
                    self._fire()
                    if self.outcome is not None or cur.state == DEAD:
                        self._reschedule()
                if self.runq:
                    self.probe('line_preemptions')
                    cur.state = READY
                    self.runq.append(cur)
                    self._reschedule()

    # -- run -----------------------------------------------------------------
    def stop(self, outcome='done'):
        if self.outcome is None:
            self.outcome = outcome
            self.blocked_report = [repr(t) for t in self.tasks if t.state != DEAD]

    def finish(self, outcome='done'):
        """Called by a sim task to end the run; never returns."""
        self.stop(outcome)
        self._reschedule()

    def run(self):
        """Run until stop(); called from the real main thread."""
        nxt = self._pick_next()
        if nxt is None:
            return self.outcome
        nxt.state = RUNNING
        self.current = nxt
        nxt.sem.release()
        self.controller.acquire()
        return self.outcome


def text_crc(s):
    return zlib.crc32(s.encode('utf8', 'replace'))


class Local:
    """threading.local per simulated task."""

    def __new__(cls, *args, **kw):
        self = object.__new__(cls)
        object.__setattr__(self, '_dst_args', (args, kw))
        K.current.locals[id(self)] = (self, {})     # the creating thread runs __init__ itself
        return self

    def __init__(self, *args, **kw):
        pass

    def __getattribute__(self, name):
        if name == '__class__' or name == '_dst_args':
            return object.__getattribute__(self, name)
        d = _local_dict(self)
        if name == '__dict__':
            return d
        if name in d:
            return d[name]
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        _local_dict(self)[name] = value

    def __delattr__(self, name):
        try:
            del _local_dict(self)[name]
        except KeyError:
            raise AttributeError(name) from None


def _local_dict(obj):
    locs = K.current.locals
    e = locs.get(id(obj))
    if e is None:
        e = locs[id(obj)] = (obj, {})
        args, kw = object.__getattribute__(obj, '_dst_args')
        type(obj).__init__(obj, *args, **kw)
    return e[1]


# ---- line monitoring -------------------------------------------------------
_TOOL = 4
_installed = False


def _line_cb(code, line):
    k = K
    if k is not None and k.current is not None and not k.in_kernel:
        k.on_line()


def install_line_hook():
    global _installed
    if not _installed:
        sys.monitoring.use_tool_id(_TOOL, 'dst')
        sys.monitoring.register_callback(_TOOL, sys.monitoring.events.LINE, _line_cb)
        _installed = True


def watch_code(code):
    """Arm LINE events on a code object and everything nested in it."""
    install_line_hook()
    sys.monitoring.set_local_events(_TOOL, code, sys.monitoring.events.LINE)
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            watch_code(c)
