"""Per-process module tables: the seam.

Every simulated process executes the real source of teleprox (and of the stdlib
modules that hold state or threads: threading, queue, logging, concurrent.futures,
pickle, argparse) in its own namespace, on top of simulated zmq, time, _thread, os,
sys, atexit, socket, subprocess, shared memory, random and Qt.  Nothing in /repo
is changed.
"""
import operator
import atexit as _real_atexit
import builtins as rb
import gc
import importlib
import importlib.util
import os as ros
import random as rrandom
import signal as rsignal
import socket as rsocket
import subprocess as rsubprocess
import inspect
import mmap
import sys as rsys
import time as rtime
import types
import traceback
import shlex
import weakref

from . import kernel as kmod
from .kernel import US, MS, SEC, HarnessError
from .net import make_zmq_module
from . import osmodel
from .osmodel import DevNull, PipeBuf, Process

REPO = ros.environ.get('DST_REPO', '/repo')
PYEXE = '/sim/bin/python'

FRESH_STDLIB = {'threading', 'queue', 'logging', 'logging.handlers', 'concurrent', 'concurrent.futures',
                'concurrent.futures._base', 'concurrent.futures.thread', 'pickle', 'argparse', 'sched',
                '_threading_local', 'functools_'}
FORBIDDEN = {'select', 'selectors', 'asyncio', '_socket', 'fcntl', 'pty', 'multiprocessing.connection',
             'multiprocessing.pool', 'multiprocessing.managers', 'socketserver', '_posixsubprocess', 'ctypes',
             'termios', 'resource', 'syslog', 'mmap'}
BLOCKED = {'_queue', '_pickle', 'wmi', 'PyQt6', 'PySide6', 'PySide2', 'PyQt6.QtCore',
           'PySide6.QtCore', 'PySide2.QtCore', 'psutil', 'setproctitle'}

_code_cache = {}
_src_cache = {}


def user_lib_path(name):
    return ros.path.join(ros.path.dirname(ros.path.dirname(ros.path.abspath(__file__))), 'simlib', name + '.py')


def _find_source(name):
    """-> (path, is_package) for modules that get executed afresh."""
    if name in _src_cache:
        return _src_cache[name]
    r = None
    top = name.split('.')[0]
    if top == 'teleprox':
        base = ros.path.join(REPO, *name.split('.'))
        if ros.path.isfile(ros.path.join(base, '__init__.py')):
            r = (ros.path.join(base, '__init__.py'), True)
        elif ros.path.isfile(base + '.py'):
            r = (base + '.py', False)
    elif name in FRESH_STDLIB:
        spec = importlib.util.find_spec(name)
        r = (spec.origin, spec.submodule_search_locations is not None)
    else:
        p = user_lib_path(name)
        if ros.path.isfile(p):
            r = (p, False)
    _src_cache[name] = r
    return r


def get_code(name):
    if name not in _code_cache:
        path, pkg = _find_source(name)
        with open(path, 'rb') as f:
            src = f.read()
        code = compile(src, path, 'exec', dont_inherit=True)
        if name.split('.')[0] == 'teleprox':
            kmod.watch_code(code)
        _code_cache[name] = (code, path, pkg)
    return _code_cache[name]


def precompile():
    """Compile everything once before worker processes fork."""
    root = ros.path.join(REPO, 'teleprox')
    for d, dirs, files in ros.walk(root):
        dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')]
        for f in sorted(files):
            if f.endswith('.py'):
                rel = ros.path.relpath(ros.path.join(d, f), REPO)[:-3].replace('/', '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                try:
                    get_code(rel)
                except SyntaxError:
                    raise
    for n in FRESH_STDLIB:
        try:
            get_code(n)
        except Exception:
            pass
    lib = ros.path.dirname(user_lib_path('x'))
    for f in sorted(ros.listdir(lib)):
        if f.endswith('.py'):
            get_code(f[:-3])


class TimeProxyError(HarnessError):
    pass


# ---- fakes -------------------------------------------------------------------
class SimLock:
    def __init__(self, k):
        self._k = k
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k = self._k
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        k.point('lock')
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            k.idle_spin()
            return False
        if timeout is not None and timeout < 0 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        deadline = None if timeout is None or timeout < 0 else k.now + int(timeout * 1e9)
        t = k.current
        while True:
            self._waiters.append(t)
            k.park(deadline, on='lock')
            self._waiters.remove(t)
            if not self._locked:
                self._locked = True
                return True
            if deadline is not None and k.now >= deadline:
                return False

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        ws = [t for t in self._waiters if not t.woken]
        if ws:
            self._k.unpark(ws[self._k.choices.pick(len(ws))] if len(ws) > 1 else ws[0])

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self, k):
        self._k = k
        self._lock = SimLock(k)
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = self._k.current
        if self._owner is me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner is not self._k.current:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is self._k.current

    def _release_save(self):
        r = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return r

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._lock = SimLock(self._k)
        self._owner = None
        self._count = 0


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def fake_thread(env):
    proc, k = env.proc, env.k

    def start_new_thread(fn, args, kwargs={}):
        k.point('thread.start')
        if proc.phase == 'finalize':
            raise RuntimeError("can't create new thread at interpreter shutdown")
        ident = proc.alloc_ident()

        def body():
            t = k.current
            try:
                fn(*args, **kwargs)
            except SystemExit:
                pass
            except HarnessError:
                k.harness_error('%s thread: %s' % (proc.name, traceback.format_exc()))
                k.finish('harness_error')
            except BaseException as e:
                env.report_uncaught(e, thread=True)
            finally:
                s = t.sentinel
                if s is not None and s._locked:
                    s.release()
                if k.cfg.get('ident_reuse'):
                    proc.idents_free.append(ident)
        k.spawn(proc, body, '%s:t%x' % (proc.name, ident & 0xfffff), ident)
        return ident

    def _set_sentinel():
        lock = SimLock(k)
        k.current.sentinel = lock
        return lock

    def get_ident():
        return k.current.ident

    def interrupt_main(*a):
        raise HarnessError('interrupt_main')

    import _thread as rt
    return mod('_thread', start_new_thread=start_new_thread, start_new=start_new_thread,
               allocate_lock=lambda: SimLock(k), allocate=lambda: SimLock(k), LockType=SimLock,
               RLock=lambda: SimRLock(k), get_ident=get_ident, get_native_id=get_ident,
               _set_sentinel=_set_sentinel, TIMEOUT_MAX=rt.TIMEOUT_MAX, error=RuntimeError,
               _is_main_interpreter=lambda: True, daemon_threads_allowed=lambda: True,
               interrupt_main=interrupt_main, exit=rt.exit, exit_thread=rt.exit,
               stack_size=lambda *a: 0, _count=lambda: len(proc.tasks), _local=kmod.Local)


def fake_time(env):
    proc, k, host = env.proc, env.k, env.proc.host

    def time():
        k.point('time')
        return host.wall_ns() / 1e9

    def time_ns():
        k.point('time')
        return host.wall_ns()

    def perf_counter():
        k.point('time')
        return host.mono_ns() / 1e9

    def perf_counter_ns():
        k.point('time')
        return host.mono_ns()

    def sleep(s):
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        k.sleep(int(s * 1e9))
        if s == 0:
            k.yield_now()

    m = mod('time', time=time, time_ns=time_ns, perf_counter=perf_counter, perf_counter_ns=perf_counter_ns,
            monotonic=perf_counter, monotonic_ns=perf_counter_ns, process_time=perf_counter,
            thread_time=perf_counter, sleep=sleep)

    def localtime(s=None):
        return rtime.gmtime(host.wall_ns() / 1e9 if s is None else s)

    m.localtime = localtime
    m.gmtime = localtime
    for n in ('strftime', 'strptime', 'mktime', 'struct_time', 'timezone', 'tzname', 'altzone', 'daylight',
              'asctime', 'get_clock_info', 'CLOCK_MONOTONIC', 'CLOCK_REALTIME', 'tzset'):
        setattr(m, n, getattr(rtime, n))
    m.ctime = lambda s=None: rtime.asctime(localtime(s))
    m.clock_gettime = lambda c: time() if c == rtime.CLOCK_REALTIME else perf_counter()
    m.__loader__ = None
    return m


class SimText:
    """An unbuffered text stream on a process's file descriptor (python -u)."""
    encoding = 'utf-8'
    errors = 'backslashreplace'
    newlines = None
    closed = False
    line_buffering = True

    def __init__(self, proc, fd, name):
        self._proc = proc
        self._fd = fd
        self.name = name
        self.buffer = SimBinary(proc, fd)

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        if s:
            b = s.encode('utf8', 'backslashreplace' if self._fd == 2 else 'strict')
            d = self._proc.fds.get(self._fd)
            if not self._proc.unbuffered and getattr(d, 'kind', None) == 'pipe' and self._proc.replay is None:
                self._pend += b
                if self._fd == 1 and len(self._pend) < 8192 or self._fd == 2 and b'\n' not in b:
                    return len(s)
                self.flush()
            else:
                self.buffer.write(b)
        return len(s)

    _pend = b''

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def flush(self):
        b, self._pend = self._pend, b''
        if b:
            self.buffer.write(b)

    def isatty(self):
        return False

    def fileno(self):
        return self._fd

    def readline(self, *a):
        raise HarnessError('stdin readline')

    read = readline

    def writable(self):
        return True

    def readable(self):
        return False

    def reconfigure(self, **kw):
        pass

    def close(self):
        pass


class SimBinary:
    def __init__(self, proc, fd):
        self._proc = proc
        self._fd = fd

    def write(self, b):
        if self._proc.replay is not None:
            return len(b)
        d = self._proc.fds.get(self._fd)
        if d is None:
            raise OSError(9, 'Bad file descriptor')
        return d.write(b)

    def flush(self):
        pass

    def fileno(self):
        return self._fd


class SimFile:
    """Minimal file object for /dev/null."""

    def __init__(self, proc, fd, text):
        self._proc = proc
        self._fd = fd
        self._text = text
        self.closed = False

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def read(self, n=-1):
        return '' if self._text else b''

    readline = read

    def write(self, d):
        return len(d)

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            self._proc.close_fd(self._fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            if not self.closed and self._proc.state == 'running':
                self.close()
        except Exception:
            pass


class PipeReader:
    """BufferedReader over a pipe; a lock keeps concurrent readers apart."""
    mode = 'rb'

    def __init__(self, proc, fd):
        self._proc = proc
        self._fd = fd
        self._buf = b''
        self._eof = False
        self.closed = False
        self._lock = SimLock(proc.k)
        self.name = fd

    def _desc(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._proc.fds[self._fd]

    def _fill(self):
        d = self._desc().read(8192)
        if d == b'':
            return False
        self._buf += d
        return True

    def readline(self, limit=-1):
        with self._lock:
            self._desc()
            while b'\n' not in self._buf:
                if limit is not None and limit >= 0 and len(self._buf) >= limit:
                    break
                if not self._fill():
                    r, self._buf = self._buf, b''
                    return r
            i = self._buf.find(b'\n') + 1 or len(self._buf)
            if limit is not None and limit >= 0:
                i = min(i, limit)
            r, self._buf = self._buf[:i], self._buf[i:]
            return r

    def read(self, n=-1):
        with self._lock:
            self._desc()
            while n is None or n < 0 or len(self._buf) < n:
                if not self._fill():
                    break
            if n is None or n < 0:
                n = len(self._buf)
            r, self._buf = self._buf[:n], self._buf[n:]
            return r

    def read1(self, n=-1):
        with self._lock:
            self._desc()
            if not self._buf:
                self._fill()
            if n is None or n < 0:
                n = len(self._buf)
            r, self._buf = self._buf[:n], self._buf[n:]
            return r

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readinto1(self, b):
        d = self.read1(len(b))
        b[:len(d)] = d
        return len(d)

    def peek(self, n=0):
        with self._lock:
            self._desc()
            if not self._buf:
                self._fill()
            return self._buf

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def raw_read(self, n):
        return self._desc().read(n)

    def fileno(self):
        self._desc()
        return self._fd

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return False

    def isatty(self):
        return False

    def flush(self):
        pass

    def close(self):
        if self.closed:
            return
        with self._lock:
            if not self.closed:
                self.closed = True
                if self._proc.state == 'running' and self._fd in self._proc.fds:
                    self._proc.close_fd(self._fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class PipeWriter:
    def __init__(self, proc, fd):
        self._proc = proc
        self._fd = fd
        self.closed = False

    def write(self, b):
        if self.closed:
            raise ValueError('write to closed file')
        return self._proc.fds[self._fd].write(b)

    def flush(self):
        pass

    def fileno(self):
        return self._fd

    def close(self):
        if not self.closed:
            self.closed = True
            if self._fd in self._proc.fds:
                self._proc.close_fd(self._fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def fake_os(env):
    proc, k, world = env.proc, env.k, env.proc.world

    def logged(name, fn):
        def call(*a):
            if proc.replay is not None:
                n, r = proc.replay.pop(0)
                if n != name:
                    raise HarnessError('fork replay diverged: %s vs %s' % (n, name))
                if not proc.replay:
                    proc.replay = None
                proc.syscalls.append((name, r))
                return r
            k.point('os.' + name)
            r = fn(*a)
            proc.syscalls.append((name, r))
            return r
        return call

    def fork():
        if proc.program is None:
            raise HarnessError('fork in a harness process')
        if len(proc.tasks) > 1 or any(r() is not None and r().proc is proc for r in world.sockets):
            raise HarnessError('fork after threads/sockets exist')
        c = Process(world, proc.host, proc.name, proc, proc.cmdline)
        c.argv = proc.argv
        c.program = proc.program
        c.environ = dict(proc.environ)
        c.exe = proc.exe
        c.sid, c.pgid = proc.sid, proc.pgid
        c.fds = {n: d.incref() for n, d in proc.fds.items()}
        c.replay = list(proc.syscalls) + [('fork', 0)]
        k.record('fork', pid=proc.pid, child=c.pid)
        run_program(c)
        return c.pid

    def setsid():
        if proc.pgid == proc.pid:
            raise PermissionError(1, 'Operation not permitted')
        proc.sid = proc.pgid = proc.pid
        return proc.sid

    def setpgid(pid, pg):
        proc.pgid = pg or proc.pid

    def kill(pid, sig):
        k.point('os.kill')
        world.kill_pid(pid, int(sig), by=proc)

    def killpg(pg, sig):
        k.point('os.kill')
        ps = [p for p in world.live() if p.pgid == pg]
        if not ps:
            raise ProcessLookupError(3, 'No such process')
        for p in ps:
            world.kill_pid(p.pid, int(sig), by=proc)

    def getpid():
        if proc.replay is not None and proc.replay[0][0] == 'getpid':
            return proc.replay.pop(0)[1]
        if proc.program is not None and len(proc.syscalls) < 200:
            proc.syscalls.append(('getpid', proc.pid))
        return proc.pid

    def _exit(code):
        proc.die(code, killed=True)

    def read(fd, n):
        d = proc.fds.get(fd)
        if d is None:
            raise OSError(9, 'Bad file descriptor')
        return d.read(n)

    def write(fd, b):
        d = proc.fds.get(fd)
        if d is None:
            raise OSError(9, 'Bad file descriptor')
        return d.write(b)

    def close(fd):
        proc.close_fd(fd)

    def pipe():
        from .osmodel import PipeBuf
        b = PipeBuf(world)
        return proc.new_fd(b.r), proc.new_fd(b.w)

    def fdopen(fd, mode='r', *a, **kw):
        raise HarnessError('os.fdopen')

    def open_(path, flags, mode=0o777, **kw):
        if path != '/dev/null':
            raise HarnessError('os.open(%r)' % (path,))
        return proc.new_fd(DevNull())

    def waitpid(pid, opts=0):
        c = world.procs.get(pid)
        if c is None or c.parent is not proc:
            raise ChildProcessError(10, 'No child processes')
        t = k.current
        while c.state == 'running':
            if opts & 1:
                return (0, 0)
            c.exit_waiters.append(t)
            k.park(None, on='waitpid')
            c.exit_waiters.remove(t)
        st = c.exit_code
        c.reap()
        return (pid, (-st) if st < 0 else st << 8)

    m = mod('os', fork=logged('fork', fork), setsid=logged('setsid', setsid),
            setpgid=logged('setpgid', setpgid), setpgrp=logged('setpgid', lambda: setpgid(0, 0)),
            dup2=logged('dup2', lambda a, b, *x, **y: proc.dup2(a, b)), kill=kill, killpg=killpg,
            getpid=getpid, getppid=lambda: proc.ppid, getpgid=lambda p: world.procs[p].pgid,
            getsid=lambda p: (world.procs[p] if p else proc).sid, getpgrp=lambda: proc.pgid,
            _exit=_exit, read=read, write=write, close=close, open=open_, waitpid=waitpid,
            pipe=pipe, fdopen=fdopen, urandom=lambda n: proc.rng.randbytes(n), getrandom=lambda n, f=0: proc.rng.randbytes(n),
            umask=lambda m: 0o22, chdir=lambda p: None, nice=lambda n: 0, getuid=lambda: 1000,
            geteuid=lambda: 1000, getgid=lambda: 1000, getlogin=lambda: 'user',
            cpu_count=lambda: 4, getcwd=lambda: '/sim', uname=lambda: ros.uname_result(
                ('Linux', proc.host.name, '6', '1', 'x86_64')))
    for n in ('path', 'sep', 'linesep', 'name', 'fspath', 'fsencode', 'fsdecode', 'devnull', 'pathsep', 'curdir',
              'extsep', 'altsep', 'PathLike', 'strerror', 'error', 'O_RDWR', 'O_RDONLY', 'O_WRONLY', 'WNOHANG',
              'WIFEXITED', 'WEXITSTATUS', 'WIFSIGNALED', 'WTERMSIG', 'waitstatus_to_exitcode',
              'get_terminal_size', 'terminal_size', 'SEEK_SET', 'R_OK', 'W_OK', 'F_OK', 'X_OK'):
        setattr(m, n, getattr(ros, n))
    m.environ = proc.environ
    m.getenv = lambda n, d=None: proc.environ.get(n, d)

    def __getattr__(name):
        if hasattr(ros, name) and name not in ('register_at_fork',) and not name.startswith('_'):
            raise HarnessError('unsupported os API %r' % name)
        raise AttributeError("module 'os' has no attribute %r" % name)
    m.__getattr__ = __getattr__
    m.__path__ = []
    return m


def fake_sys(env):
    proc, k = env.proc, env.k
    m = types.ModuleType('sys')
    proc_mods = env.modules

    def default_hook(t, v, tb):
        try:
            m.stderr.write(''.join(traceback.format_exception(t, v, tb)))
        except Exception:
            pass
    m.modules = proc_mods
    m.argv = list(proc.argv or [proc.name])
    m.executable = proc.exe
    m.platform = 'linux'
    m.stdin = SimText(proc, 0, '<stdin>')
    m.stdout = SimText(proc, 1, '<stdout>')
    m.stderr = SimText(proc, 2, '<stderr>')
    m.__stdin__, m.__stdout__, m.__stderr__ = m.stdin, m.stdout, m.stderr
    m.excepthook = default_hook
    m.__excepthook__ = default_hook
    m.unraisablehook = lambda u: None
    m.path = ['/sim']
    for n in ('exit', 'exc_info', 'exception', '_getframe', 'version_info', 'maxsize', 'byteorder', 'flags',
              'getrefcount', 'version', 'hexversion', 'implementation', 'getrecursionlimit', 'maxunicode',
              'builtin_module_names', 'getsizeof', 'intern', 'is_finalizing', 'getdefaultencoding',
              'getfilesystemencoding', 'prefix', 'base_prefix', 'exec_prefix', 'base_exec_prefix', 'float_info', 'int_info', 'hash_info',
              'thread_info', 'gettrace', 'getprofile', 'stdlib_module_names', 'api_version', 'warnoptions',
              'getfilesystemencodeerrors', '_current_frames', 'setrecursionlimit', 'dont_write_bytecode',
              'meta_path', 'path_hooks', 'path_importer_cache', 'audit', 'displayhook', 'getswitchinterval'):
        if hasattr(rsys, n):
            setattr(m, n, getattr(rsys, n))
    m.is_finalizing = lambda: proc.phase == 'finalize'
    m.setswitchinterval = lambda x: None
    return m


def fake_atexit(env):
    proc = env.proc

    def register(fn, *a, **kw):
        proc.atexit.append((fn, a, kw))
        return fn

    def unregister(fn):
        proc.atexit[:] = [x for x in proc.atexit if x[0] != fn]
    return mod('atexit', register=register, unregister=unregister,
               _run_exitfuncs=lambda: None, _ncallbacks=lambda: len(proc.atexit))


def fake_socket(env):
    proc, k, net = env.proc, env.k, env.proc.world.net

    class socket:
        def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
            self._to = None
            self.closed = False

        def settimeout(self, t):
            self._to = t

        def gettimeout(self):
            return self._to

        def setsockopt(self, *a):
            pass

        def connect(self, addr):
            host, port = addr[0], int(addr[1])
            if not 0 <= port <= 65535:
                raise OverflowError('connect(): port must be 0-65535.')
            k.point('socket.connect')
            import re
            if host == 'localhost':
                host = '127.0.0.1'
            if not re.match(r'^\d+\.\d+\.\d+\.\d+$', host):
                raise rsocket.gaierror(-2, 'Name or service not known')
            if host == '0.0.0.0':
                host = '127.0.0.1'
            target, lst = net.find_listener(proc.host, host, port)
            rtt = 2 * net.latency(proc.host, target or proc.host)
            end = None if self._to is None else k.now + int(self._to * 1e9)
            while True:
                target, lst = net.find_listener(proc.host, host, port)
                until = net.blocked_until(proc.host, target) if target is not None else 0
                dead = target is None or target.down
                if not until and not dead:
                    break
                lim = until if until and not dead else k.now + 120 * SEC
                if end is not None and end < lim:
                    k.sleep(end - k.now)
                    raise rsocket.timeout('timed out')
                k.sleep(lim - k.now)
                if dead:
                    raise OSError(113, 'No route to host')
            k.sleep(rtt)
            target, lst = net.find_listener(proc.host, host, port)
            if lst is None:
                raise ConnectionRefusedError(111, 'Connection refused')

        def connect_ex(self, addr):
            try:
                self.connect(addr)
                return 0
            except rsocket.timeout:
                return 11
            except OSError as e:
                return e.errno or 1

        def shutdown(self, how):
            pass

        def close(self):
            self.closed = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise HarnessError('socket.%s' % n)

    def create_connection(address, timeout=None, source_address=None, **kw):
        s = socket()
        s.settimeout(timeout)
        s.connect(address)
        return s

    m = mod('socket', socket=socket, create_connection=create_connection,
            gethostname=lambda: proc.host.name, getfqdn=lambda n='': proc.host.name,
            gethostbyname=lambda n: '127.0.0.1' if n in ('localhost', proc.host.name) else n)
    for n in ('AF_INET', 'SOCK_STREAM', 'SOCK_DGRAM', 'timeout', 'error', 'gaierror', 'herror', 'SOL_SOCKET',
              'SO_REUSEADDR', 'SHUT_RDWR', 'AF_INET6', 'IPPROTO_TCP', 'TCP_NODELAY', 'AF_UNSPEC', 'AF_UNIX'):
        setattr(m, n, getattr(rsocket, n))
    return m


def run_program(proc):
    """Start `python -u -m <module> args` in proc."""
    def main():
        proc.env.run_main_module(proc.program)
    proc.run_main(main, delay=proc.startup_delay if proc.replay is None else 50 * US)


def run_wrapper(w, child, code):
    """A shell that waits for its command and passes on its status."""
    k = w.k

    def main():
        me = k.current
        if child is None:
            w.die(code, killed=False)
        while child.state == 'running':
            child.exit_waiters.append(me)
            k.park(None, on='waitpid')
            child.exit_waiters.remove(me)
        r = child.exit_code
        child.reap()
        k.sleep(200 * US)
        w.die(r if r >= 0 else 128 - r, killed=False)
    w.wrapper = True
    w.run_main(main, delay=2 * MS if child is None else 0)


Process.wrapper = False
Process.exe = PYEXE
Process.program = None
Process.argv = None
Process.startup_delay = 0
Process.environ = None
_old_init = Process.__init__


def _init(self, *a, **k):
    _old_init(self, *a, **k)
    if self.environ is None:
        self.environ = {'PATH': '/sim/bin', 'HOME': '/sim'}


Process.__init__ = _init


def fake_subprocess(env):
    proc, k, world = env.proc, env.k, env.proc.world
    PIPE, STDOUT, DEVNULL = -1, -2, -3
    TimeoutExpired, CalledProcessError = rsubprocess.TimeoutExpired, rsubprocess.CalledProcessError

    def spawn(cmd, fds, shell, start_new_session, environ):
        fault = world.spawn_fault_fn(k.current) if world.spawn_fault_fn else None
        world.spawn_count += 1
        if fault == 'eagain':
            k.fault('spawn_eagain')
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        if fault == 'enomem':
            k.fault('spawn_enomem')
            raise MemoryError('Cannot allocate memory')
        if isinstance(cmd, (str, bytes)):
            if shell:
                args = shlex.split(cmd if isinstance(cmd, str) else cmd.decode())
            else:
                args = [cmd]
        else:
            args = list(cmd)
            if shell:
                args = args[:1]
        args = [a.decode() if isinstance(a, bytes) else a for a in args]
        for a in args:
            if not isinstance(a, str):
                raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(a).__name__)
        environ = dict(environ if environ is not None else proc.environ)
        wrappers, condaenv = [], None
        if shell:
            wrappers.append('sh')
        i = 0
        if args[0] == 'conda':
            # `conda run` starts the command in a shell of its own and waits for it
            if args[1:2] != ['run'] or '--no-capture-output' not in args:
                raise HarnessError('cannot run %r' % (args,))
            i = 2
            while args[i].startswith('-'):
                if args[i] in ('-n', '--name'):
                    condaenv = args[i + 1]
                    i += 1
                elif args[i] not in ('--no-capture-output', '--live-stream'):
                    raise HarnessError('cannot run %r' % (args,))
                i += 1
            if condaenv is None:
                raise HarnessError('cannot run %r' % (args,))
            wrappers.append('conda')
            environ['CONDA_DEFAULT_ENV'] = condaenv
        exe = args[i]
        real = PYEXE if exe in (PYEXE, 'python', 'python3') else exe if exe in world.pythons else None
        if exe in ('python', 'python3') and condaenv is not None:
            real = '/sim/envs/%s/bin/python' % condaenv
        broken = 127 if real is None else 1 if condaenv is not None and condaenv not in world.conda_envs else None
        if real is None and not wrappers:
            raise FileNotFoundError(2, "No such file or directory: %r" % exe)
        parent = proc
        first = None
        for w in wrappers:
            c = Process(world, proc.host, w, parent, args)
            if start_new_session and first is None:
                c.sid = c.pgid = c.pid
            c.fds = {n: d.incref() for n, d in fds.items()}
            if first is None:
                first = c
            parent = c
        if broken is not None:
            run_wrapper(parent, None, broken)
        else:
            i += 1
            while i < len(args) and args[i] in ('-u', '-B', '-E', '-s', '-I', '-W', 'ignore'):
                i += 1
            if i + 1 >= len(args) or args[i] != '-m':
                raise HarnessError('cannot run %r' % (args,))
            program = args[i + 1]
            c = Process(world, proc.host, 'p%d' % (world.counters.get('proc', 0) + 1), parent, args)
            c.argv = [program] + args[i + 2:]
            c.program = program
            c.exe = real
            c.environ = environ
            c.fds = {n: d.incref() for n, d in fds.items()}
            c.init_fds = dict(c.fds)
            c.unbuffered = '-u' in args[1:i]
            if start_new_session and first is None:
                c.sid = c.pgid = c.pid
            c.startup_delay = k.choices.table([20 * MS, 40 * MS, 80 * MS, 300 * MS])
            k.record('spawn', pid=c.pid, parent=proc.pid, cmd=args)
            if fault == 'crash':
                k.fault('spawn_child_crash')
                c.run_main(lambda: c.die(-11, killed=True), delay=5 * MS)
            elif fault == 'hang':
                k.fault('spawn_child_hang')
                c.run_main(lambda: k.sleep(100000 * SEC))
            elif fault == 'exit1':
                k.fault('spawn_child_exit')
                c.run_main(lambda: rsys.exit(1), delay=5 * MS)
            else:
                if fault == 'slow':
                    k.fault('spawn_slow')
                    c.startup_delay += k.choices.table([3, 6, 9, 12]) * SEC
                run_program(c)
            if parent is not proc:
                run_wrapper(parent, c, None)
        while parent is not proc:
            if parent.parent is not proc:
                run_wrapper(parent.parent, parent, None)
            parent = parent.parent
        return first or c

    class Popen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                     preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None,
                     startupinfo=None, creationflags=0, restore_signals=True, start_new_session=False,
                     pass_fds=(), *, group=None, extra_groups=None, user=None, umask=-1, encoding=None,
                     errors=None, text=None, pipesize=-1, process_group=None):
            self.args = args
            self.returncode = None
            self.stdin = self.stdout = self.stderr = None
            self._child = None
            if preexec_fn is not None:
                raise HarnessError('preexec_fn')
            if creationflags:
                raise ValueError('creationflags is only supported on Windows platforms')
            k.point('popen')
            fds, mine = {}, []
            try:
                for n, spec in ((0, stdin), (1, stdout), (2, stderr)):
                    if spec is None:
                        fds[n] = proc.fds[n]
                    elif spec == DEVNULL:
                        fds[n] = DevNull()
                    elif spec == PIPE:
                        b = PipeBuf(world)
                        if n == 0:
                            fds[n] = b.r
                            mine.append((n, b.w))
                        else:
                            fds[n] = b.w
                            mine.append((n, b.r))
                    elif spec == STDOUT and n == 2:
                        fds[n] = fds[1]
                    elif isinstance(spec, int):
                        fds[n] = proc.fds[spec]
                    else:
                        fds[n] = proc.fds[spec.fileno()]
            except KeyError:
                raise OSError(9, 'Bad file descriptor')
            c = spawn(args, fds, shell, start_new_session, env)
            if process_group is not None:
                c.pgid = process_group or c.pid
            self._child = c
            self.pid = c.pid
            text_mode = text or universal_newlines or encoding or errors
            for n, end in mine:
                fd = proc.new_fd(end)
                f = PipeWriter(proc, fd) if n == 0 else PipeReader(proc, fd)
                if text_mode:
                    import io
                    f = io.TextIOWrapper(f, encoding=encoding or 'utf-8', errors=errors)
                setattr(self, ('stdin', 'stdout', 'stderr')[n], f)
            k.point('popen.done')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            for f in (self.stdout, self.stderr, self.stdin):
                if f:
                    f.close()
            self.wait()

        def poll(self):
            k.point('popen.poll')
            if self.returncode is None and self._child.state != 'running':
                self.returncode = self._child.exit_code
                self._child.reap()
            if self.returncode is None:
                k.idle_spin()
            return self.returncode

        def wait(self, timeout=None):
            if self.returncode is not None:
                return self.returncode
            k.point('popen.wait')
            deadline = None if timeout is None else k.now + int(timeout * 1e9)
            c, t = self._child, k.current
            while c.state == 'running':
                if deadline is not None and k.now >= deadline:
                    raise TimeoutExpired(self.args, timeout)
                c.exit_waiters.append(t)
                k.park(deadline, on='waitpid')
                c.exit_waiters.remove(t)
            if self.returncode is None:
                self.returncode = c.exit_code
                c.reap()
            return self.returncode

        def communicate(self, input=None, timeout=None):
            """Reads the pipes itself: competes with anyone else reading them."""
            deadline = None if timeout is None else k.now + int(timeout * 1e9)
            if self.stdin is not None and not self.stdin.closed:
                self.stdin.close()
            outs = {}
            for nm, f in (('o', self.stdout), ('e', self.stderr)):
                if f is not None:
                    if f.closed:
                        raise ValueError('I/O operation on closed file')
                    outs[nm] = [f, f._desc(), []]
            open_ = set(outs)
            t = k.current
            if not hasattr(self, '_comm'):
                self._comm = {'o': [], 'e': []}
            while open_:
                progressed = False
                for nm in sorted(open_):
                    f, d, _ = outs[nm]
                    if f.closed:
                        open_.discard(nm)
                        continue
                    b = d.buf
                    if b.data:
                        data = bytes(b.data)
                        del b.data[:]
                        b.total_out += len(data)
                        self._comm[nm].append(data)
                        b.wake(b.wwait)
                        k.probe('communicate_read')
                        progressed = True
                    elif b.w.refs == 0:
                        open_.discard(nm)
                        f.close()
                        progressed = True
                k.point('communicate')
                if progressed:
                    continue
                if not open_:
                    break
                if deadline is not None and k.now >= deadline:
                    raise TimeoutExpired(self.args, timeout)
                ws = [outs[nm][1].buf for nm in sorted(open_)]
                for b in ws:
                    b.rwait.append(t)
                k.park(deadline, on='communicate')
                for b in ws:
                    b.rwait.remove(t)
            rem = None if deadline is None else max(0, (deadline - k.now) / 1e9)
            try:
                self.wait(rem)
            except TimeoutExpired:
                raise TimeoutExpired(self.args, timeout) from None
            return (b''.join(self._comm['o']) if self.stdout is not None else None,
                    b''.join(self._comm['e']) if self.stderr is not None else None)

        def send_signal(self, sig):
            self.poll()
            if self.returncode is None:
                world.kill_pid(self.pid, int(sig), by=proc)

        def kill(self):
            self.send_signal(9)

        def terminate(self):
            self.send_signal(15)

    def ps(args):
        # only what is printed matters: one line per process, a header unless the columns have empty titles
        k.point('ps')
        k.sleep(k.choices.table([3 * MS, 1 * MS, 20 * MS]))
        rest = ' '.join(args[1:])
        if 'pid' not in rest or not any(w in rest for w in ('command', 'args', 'cmd')):
            raise HarnessError('ps %r' % (args,))
        out = [] if 'pid=' in rest or 'h' in args[1:] or '--no-headers' in rest else ['    PID COMMAND']
        rows = [(p.pid, ' '.join(p.cmdline) if p.state == 'running' else '[%s] <defunct>' % p.cmdline[0])
                for p in world.procs.values() if p.host is proc.host]
        # ps itself is a process too
        rows.append((world.alloc_pid(), ' '.join(args)))
        rows.append((1, '/sbin/init'))
        rows.sort()
        for p, c in rows:
            out.append('%7d %s' % (p, c))
        k.record('ps', pid=proc.pid)
        k.sleep(k.choices.table([2 * MS, 1 * MS, 10 * MS]))
        return ('\n'.join(out) + '\n').encode()

    def netstat(args):
        k.point('netstat')
        if 'l' not in ''.join(args[1:]) or 'p' not in ''.join(args[1:]):
            raise HarnessError('netstat %r' % (args,))
        k.sleep(k.choices.table([3 * MS, 1 * MS, 20 * MS]))
        out = ['Active Internet connections (only servers)',
               'Proto Recv-Q Send-Q Local Address           Foreign Address         State       PID/Program name    ']
        rows = [('127.0.0.53', 53, '512/systemd-resolve'), ('0.0.0.0', 22, '-'), ('127.0.0.1', 631, '77/cupsd: main p')]
        rows += [(ip, port, '%d/%s' % (s.proc.pid, 'python3'))
                 for (h, ip, port), s in world.net.listeners.items() if h == proc.host.name]
        for ip, port, prog in sorted(rows):
            out.append('%-5s %6d %6d %-23s %-23s %-11s %-20s' % ('tcp', 0, 0, '%s:%d' % (ip, port), '0.0.0.0:*', 'LISTEN', prog))
        out.append('%-5s %6d %6d %-23s %-23s %-11s %-20s' % ('tcp6', 0, 0, ':::22', ':::*', 'LISTEN', '-'))
        k.sleep(k.choices.table([2 * MS, 1 * MS, 10 * MS]))
        return ('\n'.join(out) + '\n').encode()

    TOOLS = {'ps': ps, 'netstat': netstat}

    def check_output(args, **kw):
        if isinstance(args, str):
            args = args.split()
        args = list(args)
        tool = args and TOOLS.get(args[0].rpartition('/')[2])
        if not tool:
            raise HarnessError('check_output %r' % (args,))
        r = tool(args)
        return r.decode() if kw.get('text') or kw.get('universal_newlines') or kw.get('encoding') else r

    class CompletedProcess:
        def __init__(self, args, returncode, stdout=None, stderr=None):
            self.args, self.returncode, self.stdout, self.stderr = args, returncode, stdout, stderr

        def check_returncode(self):
            pass

    def run(args, **kw):
        kw.pop('check', None)
        kw.pop('capture_output', None)
        kw.pop('stdout', None)
        kw.pop('stderr', None)
        return CompletedProcess(args, 0, check_output(args, **kw))

    return mod('subprocess', PIPE=PIPE, STDOUT=STDOUT, DEVNULL=DEVNULL, Popen=Popen, run=run,
               CompletedProcess=CompletedProcess,
               check_output=check_output, TimeoutExpired=TimeoutExpired, CalledProcessError=CalledProcessError,
               SubprocessError=rsubprocess.SubprocessError)


def fake_random(env):
    r = rrandom.Random(env.proc.rng.random())
    m = mod('random', Random=rrandom.Random)
    for n in ('random', 'randint', 'randrange', 'choice', 'choices', 'shuffle', 'sample', 'uniform',
              'getrandbits', 'gauss', 'expovariate', 'randbytes', 'seed'):
        setattr(m, n, getattr(r, n))
    m.SystemRandom = lambda: r
    return m


def fake_uuid(env):
    import uuid as ru
    m = mod('uuid', UUID=ru.UUID)
    m.uuid4 = lambda: ru.UUID(bytes=env.proc.rng.randbytes(16), version=4)
    m.uuid1 = lambda *a: ru.UUID(bytes=env.proc.rng.randbytes(16), version=1)
    m.getnode = lambda: 0x1234567890
    for n in ('uuid3', 'uuid5', 'NAMESPACE_DNS', 'NAMESPACE_URL'):
        setattr(m, n, getattr(ru, n))
    return m


def fake_secrets(env):
    b = env.proc.rng.randbytes
    return mod('secrets', token_bytes=lambda n=32: b(n), token_hex=lambda n=32: b(n).hex(),
               token_urlsafe=lambda n=32: b(n).hex(), randbits=lambda n: env.proc.rng.getrandbits(n),
               randbelow=lambda n: env.proc.rng.randrange(n), choice=lambda s: env.proc.rng.choice(s))


class Pages(mmap.mmap):
    """Mapped pages of a simulated process."""
    unmapped = False


def fake_shm(env):
    """multiprocessing.shared_memory: named segments that outlive their handles until
    unlinked, as POSIX shared memory."""
    proc, k, world = env.proc, env.k, env.proc.world

    class Segment:
        def __init__(self, name, size):
            self.name, self.size = name, size
            self.fd = ros.memfd_create(name)
            ros.ftruncate(self.fd, size)

        def __del__(self):
            ros.close(self.fd)

    class SharedMemory:
        _buf = _map = None

        def __init__(self, name=None, create=False, size=0):
            k.point('shm.open')
            if not size >= 0:
                raise ValueError("'size' must be a positive integer")
            if create:
                if size == 0:
                    raise ValueError("'size' must be a positive number different from zero")
                size = operator.index(size)
                if world.__dict__.get('shm_fault'):
                    world.shm_fault -= 1
                    k.fault('shm_enospc')
                    raise OSError(28, 'No space left on device')
                if name is None:
                    name = 'psm_%08x' % world.next_id('shm')
                elif (proc.host.name, name) in world.shm:
                    raise FileExistsError(17, 'File exists: %r' % ('/' + name))
                world.shm[proc.host.name, name] = Segment(name, size)
                k.record('shm_create', name=name, pid=proc.pid, size=size)
            else:
                if name is None:
                    raise ValueError("'name' can only be None if create=True")
                if name.startswith('/'):
                    name = name[1:]
                if (proc.host.name, name) not in world.shm:
                    raise FileNotFoundError(2, 'No such file or directory: %r' % ('/' + name))
            self._seg = world.shm[proc.host.name, name]
            self._name = name
            self._size = self._seg.size
            self._map = Pages(self._seg.fd, self._size)
            self._buf = memoryview(self._map)

        def __del__(self):
            try:
                self.close()
            except OSError:
                pass

        def __reduce__(self):
            return (self.__class__, (self.name, False, self.size))

        @property
        def buf(self):
            return self._buf

        @property
        def name(self):
            return self._name

        @property
        def size(self):
            return self._size

        def close(self):
            if self._buf is not None:
                self._buf.release()
                self._buf = None
            if self._map is not None:
                self._map.resize(self._size)        # BufferError if it is exported
                # (it stays mapped, so that a wrong access does not kill the simulator)
                self._map.unmapped = True
                self._map = None
                k.record('shm_close', name=self._name, pid=proc.pid)

        def unlink(self):
            k.record('shm_unlink', name=self._name, pid=proc.pid)
            if world.shm.get((proc.host.name, self._name)) is not self._seg:
                raise FileNotFoundError(2, 'No such file or directory: %r' % ('/' + self._name))
            del world.shm[proc.host.name, self._name]

        def __repr__(self):
            return 'SharedMemory(%r, size=%d)' % (self.name, self.size)

    SharedMemory.__module__ = 'multiprocessing.shared_memory'
    SharedMemory.__qualname__ = 'SharedMemory'
    return mod('multiprocessing.shared_memory', SharedMemory=SharedMemory)


class ProcEnv:
    """Module table and builtins of one simulated process."""

    def __init__(self, proc):
        self.proc = proc
        self.k = proc.k
        self.modules = proc.modules
        self.loading = {}
        self.import_waits = {}
        self.builtins = dict(rb.__dict__)
        self.builtins['__import__'] = self._import
        self.builtins['open'] = self._open
        self.builtins['print'] = self._print
        self.builtins['id'] = self._id
        self.builtins['input'] = self._no('input')
        self.builtins['breakpoint'] = self._no('breakpoint')
        bm = types.ModuleType('builtins')
        bm.__dict__.update(self.builtins)
        self.builtins_mod = bm
        self.modules['builtins'] = bm
        self.sys = fake_sys(self)
        self.modules['sys'] = self.sys

    def collect_garbage(self):
        gc.collect()

    def _no(self, what):
        def f(*a, **k):
            raise HarnessError('%s() called' % what)
        return f

    # -- import machinery
    def import_(self, name):
        """Return the (sub)module itself."""
        self._load(name)
        return self.modules[name]

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__')
            if not pkg:
                nm = (globals or {}).get('__name__', '')
                pkg = nm if '__path__' in (globals or {}) else nm.rpartition('.')[0]
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            base = '.'.join(parts)
            name = base + ('.' + name if name else '')
        if not isinstance(name, str):
            raise TypeError('module name must be str, not %s' % type(name).__name__)
        if not name:
            raise ValueError('Empty module name')
        self._load(name)
        if fromlist:
            m = self.modules[name]
            if hasattr(m, '__path__'):
                for f in fromlist:
                    if f != '*' and not self._has(m, f):
                        try:
                            self._load(name + '.' + f)
                        except ImportError as e:
                            if getattr(e, 'name', None) == name + '.' + f:
                                continue
                            raise
            return m
        if level:
            return self.modules[name]
        return self.modules[name.split('.')[0]]

    @staticmethod
    def _has(m, f):
        try:
            return hasattr(m, f)
        except HarnessError:
            return False

    def _load(self, name):
        loader = self.loading.get(name)
        if loader is not None and loader is not self.k.current:
            self._await_import(name)
        if name in self.modules:
            m = self.modules[name]
            if m is None:
                raise ModuleNotFoundError('import of %s halted; None in sys.modules' % name, name=name)
            return m
        parent = name.rpartition('.')[0]
        if parent:
            self._load(parent)
            if name in self.modules:
                return self.modules[name]
        if name in BLOCKED or name.split('.')[0] in BLOCKED:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        f = FAKES.get(name)
        if f is not None:
            m = f(self)
            m.__name__ = name
            if not hasattr(m, '__package__') or m.__package__ is None:
                m.__package__ = name if '__path__' in m.__dict__ else name.rpartition('.')[0]
            self.modules[name] = m
        elif name in FORBIDDEN:
            raise HarnessError('module %r is not simulated' % name)
        elif _find_source(name) is not None:
            m = self._exec_fresh(name)
        elif name.split('.')[0] == 'teleprox':
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        elif name.split('.')[0] in ('zmq', 'multiprocessing', 'PyQt5', 'subprocess'):
            if name.startswith('zmq.'):
                m = importlib.import_module(name) if name in ('zmq.error', 'zmq.constants') else None
                if m is None:
                    raise HarnessError('module %r is not simulated' % name)
                self.modules[name] = m
            else:
                raise ModuleNotFoundError('No module named %r' % name, name=name)
        else:
            m = importlib.import_module(name)
            self.modules[name] = m
        if parent:
            try:
                setattr(self.modules[parent], name.rpartition('.')[2], m)
            except Exception:
                pass
        return m

    def _new_module(self, name, path, pkg):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__spec__ = None
        m.__loader__ = None
        if pkg:
            m.__path__ = [ros.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        return m

    def _await_import(self, name):
        """Another thread is importing this module: wait for it, except to break a cycle (as importlib does)."""
        me = self.k.current
        while True:
            t = self.loading.get(name)
            if t is None:
                return
            n = name
            while t is not None and t is not me:
                n = self.import_waits.get(t)
                t = self.loading.get(n) if n is not None else None
            if t is me:
                return
            self.import_waits[me] = name
            self.k.park(self.k.now + 100 * US, on='import of ' + name)
            self.import_waits.pop(me, None)

    def _exec_fresh(self, name):
        code, path, pkg = get_code(name)
        m = self._new_module(name, path, pkg)
        if name.startswith('sim'):
            m._proc = self.proc
            m._k = self.k
            m._env = self
        self.modules[name] = m
        self.loading[name] = self.k.current
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.loading.pop(name, None)
        if name == 'logging':
            m.raiseExceptions = True
        return self.modules[name]

    def run_main_module(self, name):
        if _find_source(name) is None:
            self.sys.stderr.write('No module named %s\n' % name)
            raise SystemExit(1)
        # python -m imports the parent package first, as runpy does -- but a fork happens
        # in that image, so parents are executed here too
        parent = name.rpartition('.')[0]
        if parent:
            self._load(parent)
        code, path, pkg = get_code(name)
        m = self._new_module('__main__', path, False)
        m.__package__ = parent
        self.modules['__main__'] = m
        self.sys.argv[0] = path
        exec(code, m.__dict__)

    # -- builtins
    def _open(self, path, mode='r', *a, **kw):
        if path in ('/dev/null', ros.devnull):
            return SimFile(self.proc, self.proc.new_fd(DevNull()), 'b' not in mode)
        raise HarnessError('open(%r)' % (path,))

    def _print(self, *args, sep=' ', end='\n', file=None, flush=False):
        f = self.sys.stdout if file is None else file
        if f is None:
            return
        f.write((' ' if sep is None else sep).join(map(str, args)))
        f.write('\n' if end is None else end)

    def _id(self, obj):
        """Deterministic object ids; the id of a collected object may be reused."""
        p = self.proc
        rid = rb.id(obj)
        e = p.id_map.get(rid)
        if e is not None:
            return e[0]
        if p.id_free and p.k.cfg.get('id_reuse', True):
            tok = p.id_free.pop()
            p.k.probe('object_id_reused')
        else:
            p.id_next += 16
            tok = p.id_next

        def gone(_r, rid=rid, p=p, tok=tok):
            p.id_map.pop(rid, None)
            p.id_free.append(tok)
        try:
            ref = weakref.ref(obj, gone)
        except TypeError:
            ref = obj
        p.id_map[rid] = (tok, ref)
        return tok

    # -- uncaught exceptions
    def report_uncaught(self, e, thread=False):
        self.proc.excepthook_calls.append((type(e).__name__, str(e)[:300]))
        try:
            self.sys.excepthook(type(e), e, e.__traceback__)
        except HarnessError:
            raise
        except BaseException:
            pass


def fake_importlib(env):
    def import_module(name, package=None):
        if name.startswith('.'):
            level = len(name) - len(name.lstrip('.'))
            base = package.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name[level:]] if name[level:] else []))
        return env.import_(name)
    m = mod('importlib', import_module=import_module, reload=env._no('reload'), __import__=env._import)
    m.__path__ = []
    m.util = importlib.util
    return m


def fake_multiprocessing(env):
    m = mod('multiprocessing', cpu_count=lambda: 4)
    m.__path__ = []
    m.current_process = lambda: types.SimpleNamespace(name='MainProcess', pid=env.proc.pid)
    m.process = types.SimpleNamespace(current_process=m.current_process)
    return m


def fake_faulthandler(env):
    return mod('faulthandler', enable=lambda *a, **k: None, disable=lambda: None, is_enabled=lambda: True,
               register=lambda *a, **k: None, dump_traceback_later=lambda *a, **k: None)


def fake_traceback(env):
    """The real module, but what it prints goes to this process's stderr."""
    import traceback as rtb
    m = mod('traceback', **{a: b for a, b in rtb.__dict__.items() if not a.startswith('__')})

    def redirect(fn):
        pos = list(inspect.signature(fn).parameters).index('file')

        def f(*a, **k):
            if (a[pos] if len(a) > pos else k.get('file')) is not None:
                return fn(*a, **k)
            if env.sys.stderr is not None:
                k.pop('file', None)
                return fn(*a[:pos], *([env.sys.stderr] if len(a) > pos else []), *a[pos + 1:],
                          **(k if len(a) > pos else dict(k, file=env.sys.stderr)))
        return f

    def print_exc(limit=None, file=None, chain=True):
        file = env.sys.stderr if file is None else file
        if file is not None:
            rtb.print_exception(rsys.exc_info()[1], limit=limit, file=file, chain=chain)
    m.print_exc = print_exc
    for n in ('print_exception', 'print_tb', 'print_stack'):
        m.__dict__[n] = redirect(getattr(rtb, n))
    return m


def fake_signal(env):
    m = mod('signal', signal=lambda *a: None, getsignal=lambda s: None)
    for n in dir(rsignal):
        if n.startswith('SIG') or n == 'Signals':
            setattr(m, n, getattr(rsignal, n))
    return m


def fake_gc(env):
    return mod('gc', collect=lambda *a: 0, disable=lambda: None, enable=lambda: None, isenabled=lambda: True,
               get_referrers=lambda *a: [], get_objects=lambda *a: [])


def fake_posix(env):
    raise HarnessError('posix')


def fake_zmq(env):
    return make_zmq_module(env.proc)


def make_colorama(env):
    """Stub of the optional package: only there if the run says that it is installed."""
    world = env.proc.world
    if not getattr(world, 'ctx', {}).get('colorama'):
        raise ModuleNotFoundError("No module named 'colorama'", name='colorama')
    names = ['BLACK', 'RED', 'GREEN', 'YELLOW', 'BLUE', 'MAGENTA', 'CYAN', 'WHITE']

    class Fore:
        RESET = '\x1b[39m'

    class Back:
        RESET = '\x1b[49m'

    class Style:
        BRIGHT, DIM, NORMAL, RESET_ALL = '\x1b[1m', '\x1b[2m', '\x1b[22m', '\x1b[0m'
    for i, n in enumerate(names):
        setattr(Fore, n, '\x1b[%dm' % (30 + i))
        setattr(Back, n, '\x1b[%dm' % (40 + i))

    class AnsiToWin32:
        def __init__(self, wrapped, *a, **k):
            self.wrapped = self.stream = wrapped        # (not Windows: the stream is used as it is)
    return mod('colorama', Fore=Fore, Back=Back, Style=Style, AnsiToWin32=AnsiToWin32)


FAKES = {
    'colorama': make_colorama,
    'zmq': fake_zmq, 'time': fake_time, '_thread': fake_thread, 'os': fake_os, 'atexit': fake_atexit,
    'socket': fake_socket, 'subprocess': fake_subprocess, 'random': fake_random, 'uuid': fake_uuid,
    'secrets': fake_secrets, 'multiprocessing': fake_multiprocessing, 'multiprocessing.shared_memory': fake_shm,
    'faulthandler': fake_faulthandler, 'traceback': fake_traceback, 'importlib': fake_importlib, 'signal': fake_signal, 'gc': fake_gc,
    'posix': fake_posix,
}


def _qt(name):
    def f(env):
        from . import qtstub
        return qtstub.make(env, name)
    return f


for _n in ('PyQt5', 'PyQt5.QtCore', 'PyQt5.QtGui', 'PyQt5.QtWidgets', 'PyQt5.QtTest'):
    FAKES[_n] = _qt(_n)
