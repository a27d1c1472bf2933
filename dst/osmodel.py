"""Simulated hosts, processes, file descriptors and signals."""
import random

from . import kernel as kmod
from .kernel import US, MS, SEC, HarnessError
from .net import Net

PIPE_CAP = 65536


class Host:
    def __init__(self, world, name, ip, wall_offset=0, mono_offset=0, drift_ppm=0):
        self.world = world
        self.name = name
        self.ip = ip
        self.down = False
        self.wall_offset = wall_offset      # ns, changed by clock-jump faults
        self.mono_offset = mono_offset
        self.drift_ppm = drift_ppm

    def wall_ns(self):
        k = self.world.k
        return 1_700_000_000 * SEC + self.wall_offset + k.now + k.now * self.drift_ppm // 1_000_000

    def mono_ns(self):
        k = self.world.k
        return self.mono_offset + k.now + k.now * self.drift_ppm // 1_000_000

    def jump(self, ns):
        self.wall_offset += ns
        self.world.k.fault('wall_clock_jump')


class World:
    def __init__(self, k, seed=0):
        self.k = k
        self.seed = seed
        self.hosts = []
        self.net = Net(k)
        self.procs = {}
        self.all_procs = []
        self.pythons = set()        # further interpreters that can be started
        self.conda_envs = set()
        self.counters = {}
        self.sockets = []
        self.next_pid = 100
        self.free_pids = []
        self.captured = {}
        self.spawn_fault_fn = None  # fn(task) -> None|'eagain'|'enomem'|'crash'|'hang'|'exit1'|'slow'
        self.spawn_count = 0
        self.shm = {}
        self.user_modules = {}      # name -> source path, importable in every process
        self.on_spawn = None        # fn(proc) called for every new process
        self.kill_log = []
        self.loader = None

    def next_id(self, kind):
        n = self.counters.get(kind, 0) + 1
        self.counters[kind] = n
        return n

    def add_host(self, name, ip, **kw):
        h = Host(self, name, ip, **kw)
        self.hosts.append(h)
        return h

    def alloc_pid(self):
        if self.free_pids and self.k.cfg.get('pid_reuse'):
            # (an id is in use as long as it names a session or process group)
            used = {x for p in self.all_procs if p.state == 'running' for x in (p.sid, p.pgid)}
            for i in range(len(self.free_pids) - 1, -1, -1):
                if self.free_pids[i] not in used:
                    return self.free_pids.pop(i)
        self.next_pid += 1
        return self.next_pid

    def live(self):
        return [p for p in self.all_procs if p.state == 'running']

    def start_user(self, host, name, main, stdin_readable=False):
        """A user's own process whose program is the harness function main(proc)."""
        p = Process(self, host, name, None, ['python', name + '.py'])
        p.sid = p.pgid = p.pid
        p.fds = {0: Terminal(self, p, 0, stdin_readable), 1: Terminal(self, p, 1), 2: Terminal(self, p, 2)}
        for d in p.fds.values():
            d.incref()
        p.run_main(lambda: main(p))
        return p

    def kill_pid(self, pid, sig, by=None):
        p = self.procs.get(pid)
        if p is None:
            raise ProcessLookupError(3, 'No such process')
        self.kill_log.append((self.k.now, pid, sig, by.pid if by is not None else None))
        if p.state != 'running':
            return
        if sig == 0:
            return
        if sig in (9, 15, 1, 2, 3, 6):
            p.die(-sig, killed=True)
        else:
            raise HarnessError('signal %r' % sig)

    def hangup(self, sid):
        """The terminal closes: every process of the session gets SIGHUP."""
        self.k.fault('terminal_hangup')
        for p in list(self.live()):
            if p.sid == sid:
                p.die(-1, killed=True)


# ---- file descriptions -------------------------------------------------------
class Desc:
    refs = 0
    kind = '?'

    def incref(self):
        self.refs += 1
        return self

    def decref(self):
        self.refs -= 1
        if self.refs == 0:
            self.on_last_close()

    def on_last_close(self):
        pass

    def read(self, n):
        raise OSError(9, 'Bad file descriptor')

    def write(self, data):
        raise OSError(9, 'Bad file descriptor')


class DevNull(Desc):
    kind = 'null'
    readable = True

    def read(self, n):
        return b''

    def write(self, data):
        return len(data)


class Terminal(Desc):
    """A stdio stream of a user process: recorded."""
    kind = 'tty'

    def __init__(self, world, proc, n, readable=False):
        self.world = world
        self.readable = readable
        self.key = (proc.pid, n)
        self.data = world.captured.setdefault(self.key, [])

    def write(self, data):
        self.data.append(bytes(data))
        return len(data)

    def read(self, n):
        if self.readable:
            return b''
        self.world.k.park(None, on='terminal input')
        return b''


class PipeBuf:
    def __init__(self, world):
        self.world = world
        self.k = world.k
        self.data = bytearray()
        self.log = bytearray()        # everything ever written
        self.r = PipeEnd(self, False)
        self.w = PipeEnd(self, True)
        self.rwait = []
        self.wwait = []
        self.total_in = 0
        self.total_out = 0

    def wake(self, lst):
        for t in list(lst):
            self.k.unpark(t)


class PipeEnd(Desc):
    kind = 'pipe'

    def __init__(self, buf, writer):
        self.buf = buf
        self.writer = writer

    @property
    def readable(self):
        return not self.writer and bool(self.buf.data or self.buf.w.refs == 0)

    def on_last_close(self):
        b = self.buf
        b.wake(b.rwait)
        b.wake(b.wwait)

    def read(self, n):
        """Blocks; b'' at EOF.  May return less than asked."""
        b, k = self.buf, self.buf.k
        k.point('pipe.read')
        t = k.current
        while not b.data:
            if b.w.refs == 0:
                return b''
            b.rwait.append(t)
            k.park(None, on='pipe read')
            b.rwait.remove(t)
        m = min(n, len(b.data))
        if m > 1 and k.cfg.get('short_reads') and k.choices.flip(0.1):
            m = 1 + k.choices.pick(m)
            k.fault('short_read')
        out = bytes(b.data[:m])
        del b.data[:m]
        b.total_out += m
        b.wake(b.wwait)
        return out

    def write(self, data):
        b, k = self.buf, self.buf.k
        data = bytes(data)
        k.point('pipe.write')
        t = k.current
        pos = 0
        n = len(data)
        while pos < n or n == 0:
            if b.r.refs == 0:
                raise BrokenPipeError(32, 'Broken pipe')
            if n == 0:
                return 0
            room = PIPE_CAP - len(b.data)
            need = n - pos
            if room <= 0 or (n <= 4096 and room < n):
                k.probe('pipe_full')
                b.wwait.append(t)
                k.park(None, on='pipe write')
                b.wwait.remove(t)
                continue
            m = min(room, need)
            b.data += data[pos:pos + m]
            b.log += data[pos:pos + m]
            b.total_in += m
            pos += m
            b.wake(b.rwait)
        return n


# ---- processes ---------------------------------------------------------------
class Process:
    def __init__(self, world, host, name, parent, cmdline):
        self.world = world
        self.k = world.k
        self.host = host
        self.name = name
        self.parent = parent
        self.cmdline = cmdline
        self.pid = world.alloc_pid()
        self.serial = world.next_id('proc')
        self.ppid = parent.pid if parent is not None else 1
        self.sid = parent.sid if parent is not None else self.pid
        self.pgid = parent.pgid if parent is not None else self.pid
        self.state = 'running'
        self.unbuffered = False
        self.init_fds = {}
        self.heard = set()      # processes it got a message from
        self.killed = False
        self.exit_code = None
        self.tasks = []
        self.lines = 0
        self.line_trigger = []
        self.stalled_until = 0
        self.pending_inproc = {}
        self.fds = {}
        self.exit_waiters = []
        self.atexit = []
        self.modules = {}
        self.env = None
        self.main_task = None
        self.started_at = self.k.now
        self.exited_at = None
        self.crash_reason = None
        self.idents_free = []
        self.next_ident = 0x7f0000001000 + self.serial * 0x100000
        self.rng = random.Random('%s/%d' % (world.seed, self.serial))
        self.syscalls = []          # (name, result) of calls that matter to fork()
        self.replay = None
        self.exiting = False
        self.phase = 'start'
        self.id_map = {}
        self.id_free = []
        self.id_next = 0x10000
        self.excepthook_calls = []
        world.procs[self.pid] = self
        world.all_procs.append(self)
        if world.on_spawn:
            world.on_spawn(self)

    def __repr__(self):
        return '<proc %s pid=%d %s>' % (self.name, self.pid, self.state)

    @property
    def stdin_readable(self):
        d = self.fds.get(0)
        return bool(d is not None and getattr(d, 'readable', False))

    # -- idents
    def alloc_ident(self):
        if self.idents_free and self.k.cfg.get('ident_reuse'):
            return self.idents_free.pop()
        self.next_ident += 0x1000
        return self.next_ident

    # -- running
    def run_main(self, fn, delay=0):
        ident = self.alloc_ident()

        def boot():
            self._main(fn, delay)
        self.main_task = self.k.spawn(self, boot, self.name + ':main', ident)

    def _main(self, fn, delay):
        from . import modules
        if delay:
            self.k.sleep(delay)
        self.phase = 'main'
        self.env = modules.ProcEnv(self)
        code = 0
        try:
            fn()
        except SystemExit as e:
            c = e.code
            code = 0 if c is None else c if isinstance(c, int) else 1
        except HarnessError as e:
            import traceback
            self.k.harness_error('%s: %s' % (self.name, traceback.format_exc()))
            self.k.finish('harness_error')
        except BaseException as e:
            code = 1
            self.env.report_uncaught(e)
        self.exit(code)

    def exit(self, code):
        """Normal interpreter exit in the current (main) task."""
        k = self.k
        self.phase = 'exiting'
        self.exiting = True
        th = self.modules.get('threading')
        if th is not None:
            try:
                th._shutdown()
            except HarnessError:
                raise
            except BaseException as e:
                self.env.report_uncaught(e)
        self.phase = 'atexit'
        while self.atexit:
            fn, a, kw = self.atexit.pop()
            try:
                fn(*a, **kw)
            except HarnessError as e:
                k.harness_error('atexit: %r' % e)
                k.finish('harness_error')
            except SystemExit:
                pass
            except BaseException as e:
                k.probe('atexit_exception')
                k.record('atexit_exception', pid=self.pid, err=repr(e))
                self.env.report_uncaught(e)
        for n in ('stdout', 'stderr'):
            f = getattr(self.env.sys, n, None) if self.env is not None else None
            if getattr(f, '_pend', b''):
                try:
                    f.flush()
                except OSError:
                    pass
        # interpreter finalisation: daemon threads never run again
        self.phase = 'finalize'
        me = k.current
        for t in list(self.tasks):
            if t is not me:
                self._drop_task(t)
        # pyzmq does not terminate its context at exit; the I/O threads keep going while
        # the interpreter is torn down, then the process is gone
        k.sleep(k.choices.table([6 * MS, 3 * MS, 15 * MS]))
        self.die(code, killed=False)

    def _drop_task(self, t):
        if t.state == kmod.READY and t in self.k.runq:
            self.k.runq.remove(t)
        t.state = kmod.DEAD
        if t in self.tasks:
            self.tasks.remove(t)

    def die(self, code, killed):
        """The process ends now; nothing of it ever runs again."""
        if self.state != 'running':
            return
        k = self.k
        self.killed = killed
        self.state = 'zombie'
        self.exit_code = code
        self.exited_at = k.now
        k.record('proc_exit', pid=self.pid, name=self.name, code=code)
        for t in list(self.tasks):
            self._drop_task(t)
        for r in list(self.world.sockets):
            s = r()
            if s is not None and s.proc is self:
                s.opts['linger'] = 0
                s._do_close(killed)
        # nothing lingers beyond the process
        for c in self.world.net.conns:
            if c.a.proc is self:
                c.ab.outq = []
                if c.state == 'connecting':
                    c.state = 'closed'
                    c.epoch += 1
        for d in self.fds.values():
            d.decref()
        self.fds = {}
        for p in self.world.all_procs:
            if p.parent is self:
                p.ppid = 1
                if p.state == 'zombie':
                    p.reap()
        if self.ppid == 1 or self.parent is None or self.parent.state != 'running':
            self.reap()
        for t in list(self.exit_waiters):
            k.unpark(t)
        if k.current is not None and k.current.proc is self and k.current.state == kmod.DEAD:
            k._reschedule()

    def reap(self):
        if self.state == 'zombie':
            self.state = 'reaped'
            if self.world.procs.get(self.pid) is self:
                del self.world.procs[self.pid]
            self.world.free_pids.append(self.pid)

    def stall(self, ns):
        if self.state != 'running':
            return
        self.stalled_until = max(self.stalled_until, self.k.now + ns)
        self.k.stalled = 1
        self.k.at(self.stalled_until, lambda: None)
        self.k.fault('process_stall')

    # -- files
    def new_fd(self, desc):
        n = 3
        while n in self.fds:
            n += 1
        self.fds[n] = desc.incref()
        return n

    def close_fd(self, n):
        d = self.fds.pop(n, None)
        if d is None:
            raise OSError(9, 'Bad file descriptor')
        d.decref()

    def dup2(self, a, b):
        d = self.fds.get(a)
        if d is None:
            raise OSError(9, 'Bad file descriptor')
        if a == b:
            return b
        old = self.fds.get(b)
        self.fds[b] = d.incref()
        if old is not None:
            old.decref()
        return b
