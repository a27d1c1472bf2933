#!/usr/bin/env python3
"""The fakes against the real thing: the same small programs run with the real zmq, threads and pipes of this machine and
inside the simulator; what they observe must be equal.  (Real time and sockets, so this is a tool, not a check.)"""
import importlib
import os
import sys

if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

CASES = []


def case(f):
    CASES.append(f)
    return f


def err(f, *a, **kw):
    try:
        r = f(*a, **kw)
        return ['ok', r]
    except Exception as e:
        n = getattr(e, 'errno', None)
        return [type(e).__name__, n if n is None else int(n)]


class Env:
    def __init__(self, imp):
        self.zmq = imp('zmq')
        self.time = imp('time')
        self.th = imp('threading')
        self.queue = imp('queue')
        self.os = imp('os')
        self.sp = imp('subprocess')
        self.sys = imp('sys')
        self.socket = imp('socket')
        self.atexit = imp('atexit')
        self.ctx = self.zmq.Context.instance()

    def sock(self, typ, linger=0, **opts):
        s = self.ctx.socket(typ)
        s.linger = linger
        for k, v in opts.items():
            setattr(s, k, v)
        return s

    def pair(self, a, b, **opts):
        s = self.sock(a)
        s.bind('tcp://127.0.0.1:*')
        c = self.sock(b, **opts)
        c.connect(s.last_endpoint.decode())
        return s, c


def recv(s, timeout=500):
    """-> frames or None"""
    return s.recv_multipart() if s.poll(timeout) else None


@case
def endpoint(e):
    z = e.zmq
    s = e.sock(z.ROUTER)
    n = s.bind('tcp://127.0.0.1:*')
    ep = s.last_endpoint
    out = [type(ep).__name__, ep.startswith(b'tcp://127.0.0.1:'), ep.endswith(b'\0')]
    t = e.sock(z.ROUTER)
    out.append(err(t.bind, ep.decode())[0])
    out.append(err(t.bind, ep)[0])
    out.append(err(t.bind, 'tcp://no.such.host.invalid:1')[0])
    out.append(err(t.bind, 'nonsense')[0])
    out.append(err(e.sock(z.DEALER).connect, 'nonsense')[0])
    s.close()
    for i in range(50):
        r = err(t.bind, ep.decode())
        if r[0] == 'ok':
            break
        e.time.sleep(0.02)
    out.append(r[0])
    return out


@case
def router_dealer(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER, identity=b'me')
    out = []
    c.send_multipart([b'a', b'', b'c'])
    m = recv(s)
    out.append(m)
    s.send_multipart([m[0], b'x', b''])
    out.append(recv(c))
    # unknown peers are dropped silently, and mandatory ones are an error
    out.append(err(s.send_multipart, [b'nobody', b'x'])[0])
    s.setsockopt(z.ROUTER_MANDATORY, 1)
    out.append(err(s.send_multipart, [b'nobody', b'x']))
    return out


@case
def order_and_bursts(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER)
    for i in range(300):
        c.send_multipart([b'%d' % i])
    got = []
    for i in range(300):
        m = recv(s)
        got.append(int(m[-1]))
    return [got == list(range(300)), recv(s, 50)]


@case
def identity_conflict(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER, identity=b'same')
    c.send(b'1')
    out = [recv(s)]
    d = e.sock(z.DEALER, identity=b'same')
    d.connect(s.last_endpoint.decode())
    d.send(b'2')
    out.append(recv(s, 300))        # the second one is ignored
    c.send(b'3')
    out.append(recv(s))
    return out


@case
def identity_handover(e):
    z = e.zmq
    s = e.sock(z.ROUTER)
    s.setsockopt(z.ROUTER_HANDOVER, 1)
    s.bind('tcp://127.0.0.1:*')
    c = e.sock(z.DEALER, identity=b'same')
    c.connect(s.last_endpoint.decode())
    c.send(b'1')
    out = [recv(s)]
    d = e.sock(z.DEALER, identity=b'same')
    d.connect(s.last_endpoint.decode())
    d.send(b'2')
    out.append(recv(s))
    s.send_multipart([b'same', b'r'])
    out.append(recv(d))
    out.append(recv(c, 100))
    return out


@case
def identity_reuse_after_close(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER, identity=b'same')
    c.send(b'1')
    out = [recv(s)]
    c.close()
    e.time.sleep(0.2)
    d = e.sock(z.DEALER, identity=b'same')
    d.connect(s.last_endpoint.decode())
    d.send(b'2')
    out.append(recv(s))
    return out


@case
def auto_identity(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER)
    d = e.sock(z.DEALER)
    d.connect(s.last_endpoint.decode())
    c.send(b'1')
    a = recv(s)
    d.send(b'2')
    b = recv(s)
    return [len(a[0]), a[0][:1], a[0] != b[0]]


@case
def connect_before_bind(e):
    z = e.zmq
    s = e.sock(z.ROUTER)
    s.bind('tcp://127.0.0.1:*')
    ep = s.last_endpoint.decode()
    s.close()
    e.time.sleep(0.1)
    c = e.sock(z.DEALER)
    c.connect(ep)
    c.send(b'early')
    e.time.sleep(0.15)
    s = e.sock(z.ROUTER)
    for i in range(50):
        if err(s.bind, ep)[0] == 'ok':
            break
        e.time.sleep(0.02)
    m = recv(s, 2000)
    return m and m[1:]


@case
def reconnect_after_restart(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER, identity=b'c')
    ep = s.last_endpoint.decode()
    c.send(b'1')
    out = [recv(s)]
    s.close()
    e.time.sleep(0.1)
    c.send(b'2')            # waits for the new server
    t = e.sock(z.ROUTER)
    for i in range(50):
        if err(t.bind, ep)[0] == 'ok':
            break
        e.time.sleep(0.02)
    out.append(recv(t, 3000))
    t.send_multipart([b'c', b'r'])
    out.append(recv(c))
    return out


@case
def send_without_peer(e):
    z = e.zmq
    out = []
    c = e.sock(z.DEALER, sndhwm=3)
    out.append(err(c.send, b'x', z.NOBLOCK))        # not connected
    c.sndtimeo = 50
    t0 = e.time.perf_counter()
    out.append(err(c.send, b'x'))
    out.append(0.04 < e.time.perf_counter() - t0 < 0.5)
    p = e.sock(z.PUSH)
    out.append(err(p.send, b'x', z.NOBLOCK))
    return out


@case
def hwm_of_unconnected_peer(e):
    z = e.zmq
    s = e.sock(z.ROUTER)
    s.bind('tcp://127.0.0.1:*')
    ep = s.last_endpoint.decode()
    s.close()
    e.time.sleep(0.05)
    c = e.sock(z.DEALER, sndhwm=5)
    c.connect(ep)
    n = 0
    while err(c.send, b'x', z.NOBLOCK)[0] == 'ok' and n < 100:
        n += 1
    return n


@case
def recv_nothing(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER)
    out = [err(c.recv, z.NOBLOCK), c.poll(0), c.poll(30)]
    c.rcvtimeo = 30
    out.append(err(c.recv))
    out.append(err(c.recv_multipart))
    return out


@case
def closed_socket(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER)
    c.close()
    c.close()
    out = [c.closed, err(c.send, b'x'), err(c.recv), err(c.poll, 0)[0], err(lambda: c.last_endpoint)[0]]
    p = z.Poller()
    p.register(c, z.POLLIN)
    out.append(err(p.poll, 0)[0])
    return out


@case
def poller(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER)
    d = e.sock(z.DEALER)
    d.connect(s.last_endpoint.decode())
    p = z.Poller()
    p.register(c, z.POLLIN)
    p.register(d, z.POLLIN)
    p.register(s, z.POLLIN)
    out = [p.poll(0)]
    c.send(b'1')
    ev = p.poll(500)
    out.append([(x is s, n) for x, n in ev])
    out.append(len(p.poll(0)))
    m = s.recv_multipart()
    s.send_multipart([m[0], b'a'])
    d.send(b'2')
    e.time.sleep(0.1)
    ev = dict(p.poll(500))
    out.append([c in ev, d in ev, s in ev])
    p.unregister(c)
    out.append(c in dict(p.poll(0)))
    out.append(err(p.unregister, c)[0])
    q = z.Poller()
    q.register(c, z.POLLOUT)
    out.append([n for _, n in q.poll(0)])
    t0 = e.time.perf_counter()
    z.Poller().poll(50)
    out.append(e.time.perf_counter() - t0 > 0.04)
    return out


@case
def push_pull(e):
    z = e.zmq
    s, c = e.pair(z.PULL, z.PUSH)
    d = e.sock(z.PUSH)
    d.connect(s.last_endpoint.decode())
    for i in range(5):
        c.send(b'c%d' % i)
    for i in range(5):
        d.send(b'd%d' % i)
    got = [recv(s)[0] for i in range(10)]
    return [[g for g in got if g[:1] == b'c'], [g for g in got if g[:1] == b'd'], err(s.send, b'x')[0], err(c.recv)[0]]


@case
def pair_inproc(e):
    z = e.zmq
    a = e.sock(z.PAIR)
    out = []
    b = e.sock(z.PAIR)
    a.bind('inproc://conf')
    out.append(err(e.sock(z.PAIR).bind, 'inproc://conf')[0])
    b.connect('inproc://conf')
    b.send_multipart([b'1', b'2'])
    out.append(recv(a))
    a.send(b'x')
    out.append(recv(b))
    a.send(b'last')
    a.close()
    e.time.sleep(0.05)
    out.append(recv(b, 100))
    a2 = e.sock(z.PAIR)
    out.append(err(a2.bind, 'inproc://conf')[0])
    return out


@case
def linger_delivers(e):
    z = e.zmq
    s, c = e.pair(z.ROUTER, z.DEALER)
    c.linger = 1000
    for i in range(50):
        c.send(b'%d' % i)
    c.close()
    n = 0
    while recv(s, 300):
        n += 1
    return n


@case
def options(e):
    z = e.zmq
    s = e.sock(z.DEALER)
    out = [s.linger, s.type == z.DEALER, s.rcvtimeo, s.sndtimeo, s.sndhwm, s.rcvhwm, s.identity]
    s.setsockopt(z.LINGER, 5)
    out.append(s.getsockopt(z.LINGER))
    s.setsockopt(z.IDENTITY, b'abc')
    out.append(s.getsockopt(z.IDENTITY))
    out.append(err(s.setsockopt, z.IDENTITY, b'')[0])
    out.append(err(s.send_multipart, ['text'])[0])
    out.append(err(s.send, 'text')[0])
    s.rcvtimeo = 7
    out.append(s.getsockopt(z.RCVTIMEO))
    return out


@case
def locks(e):
    th, out = e.th, []
    l = th.Lock()
    out += [l.acquire(), l.acquire(False), l.acquire(timeout=0.02), l.locked(), l.release(), err(l.release)[0]]
    r = th.RLock()
    out += [r.acquire(), r.acquire(False), r.release(), r.release(), err(r.release)[0]]
    c = th.Condition()
    out.append(err(c.notify)[0])
    with c:
        out.append(c.wait(0.01))
    ev = th.Event()
    out.append(ev.wait(0.01))
    t = th.Thread(target=lambda: (e.time.sleep(0.05), ev.set()))
    t.start()
    out += [ev.wait(2), t.join(2), t.is_alive()]
    q = e.queue.Queue(1)
    q.put(1)
    out += [err(q.put, 2, True, 0.01)[0], q.get(), err(q.get, True, 0.01)[0]]
    out.append(th.current_thread() is th.main_thread())
    loc = th.local()
    loc.x = 1
    box = []
    t = th.Thread(target=lambda: box.append(hasattr(loc, 'x')))
    t.start()
    t.join()
    out.append(box)
    sem = th.Semaphore(0)
    out.append(sem.acquire(timeout=0.01))
    return out


@case
def thread_errors(e):
    th, out = e.th, []
    old = th.excepthook
    th.excepthook = lambda a: out.append([a.exc_type.__name__, str(a.exc_value), a.thread is t])

    def f():
        raise ValueError('x')
    t = th.Thread(target=f)
    t.start()
    t.join()
    th.excepthook = old
    out.append(err(t.start)[0])
    out.append(err(th.Thread().join)[0])
    return out


@case
def pipes(e):
    o, out = e.os, []
    r, w = o.pipe()
    out.append(o.write(w, b'abc'))
    out.append(o.read(r, 2))
    out.append(o.read(r, 10))
    o.write(w, b'last')
    o.close(w)
    out += [o.read(r, 10), o.read(r, 10)]
    o.close(r)
    out.append(err(o.read, r, 1))
    out.append(err(o.close, r))
    r, w = o.pipe()
    o.close(r)
    out.append(err(o.write, w, b'x'))
    o.close(w)
    return out


@case
def processes(e):
    o, out = e.os, []
    out.append(err(o.kill, 2 ** 22 - 3, 0))
    out.append(err(o.waitpid, 2 ** 22 - 3, 0))
    out.append(o.getsid(0) == o.getsid(o.getpid()))
    out.append(err(o.kill, o.getpid(), 0))
    return out


@case
def tcp_ports(e):
    so, out = e.socket, []
    s = e.sock(e.zmq.ROUTER)
    s.bind('tcp://127.0.0.1:*')
    port = int(s.last_endpoint.decode().rsplit(':')[-1])

    def tryit():
        c = so.socket()
        c.settimeout(0.5)
        try:
            return err(c.connect, ('127.0.0.1', port))
        finally:
            c.close()
    out.append(tryit())
    s.close()
    for i in range(50):
        r = tryit()
        if r[0] != 'ok':
            break
        e.time.sleep(0.02)
    out.append(r)
    return out


@case
def clocks(e):
    t, out = e.time, []
    a, b, c = t.time(), t.perf_counter(), t.monotonic()
    t.sleep(0.05)
    out.append([0.045 < y - x < 0.3 for x, y in ((a, t.time()), (b, t.perf_counter()), (c, t.monotonic()))])
    out.append(err(t.sleep, -1)[0])
    return out


@case
def atexit_order(e):
    got = []

    def f(x):
        got.append(x)
    e.atexit.register(f, 1)
    e.atexit.unregister(f)
    return got


def run_sim(f):
    from dst import kernel, osmodel, lib, modules      # noqa: F401
    box = {}

    class P:
        @staticmethod
        def setup(world, spec):
            lib.setup_common(world, spec)

            def main(p):
                box['r'] = f(Env(p.env.import_))
                world.k.finish('done')
            world.start_user(world.hosts[0], 'main', main)

        @staticmethod
        def check(world, spec):
            return []
    from dst import driver
    res, k, world = driver.execute(P, {'cfg': {'line_mean': 0, 'p_switch': 0.1, 'wake_delays': [0], 'net_delays': [50000],
                                               'step_ns': 1000}}, seed=1)
    if 'r' not in box:
        return ['sim', res['outcome'], res['harness'], [p.excepthook_calls for p in world.all_procs]]
    return box['r']


def forked(fn):
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            x = pickle.dumps(fn())
        except BaseException:
            import traceback
            x = pickle.dumps(['failed', traceback.format_exc()[-1500:]])
        with os.fdopen(w, 'wb') as f:
            f.write(x)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        d = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else ['crashed']


def main():
    bad = 0
    for f in CASES:
        if len(sys.argv) > 1 and f.__name__ not in sys.argv[1:]:
            continue
        a = forked(lambda: f(Env(importlib.import_module)))
        b = forked(lambda: run_sim(f))
        same = repr(a) == repr(b)
        bad += not same
        print('%-28s %s' % (f.__name__, 'same' if same else 'DIFFERS'))
        if not same:
            print('   real: %r\n   sim:  %r' % (a, b))
    print('%d cases, %d differ' % (len(CASES), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
