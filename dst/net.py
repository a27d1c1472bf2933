"""Simulated network and a simulated libzmq on top of it.

Semantics follow libzmq 4.3 as observed with dst/conformance.py against the real
library: per-connection FIFO over reliable streams, HWM per pipe side, ROUTER
drops to unknown/full peers, a second peer presenting a live routing id is
ignored for good, connectors queue and reconnect, linger on close.
"""
import errno
import re
import types
import weakref
import zmq as rz

from . import kernel as kmod
from .kernel import US, MS, SEC, HarnessError

ROUTER, DEALER, PAIR, PUSH, PULL = (int(rz.ROUTER), int(rz.DEALER), int(rz.PAIR),
                                    int(rz.PUSH), int(rz.PULL))
REQ, REP, PUB, SUB = int(rz.REQ), int(rz.REP), int(rz.PUB), int(rz.SUB)
SUPPORTED = (ROUTER, DEALER, PAIR, PUSH, PULL)
NOBLOCK = int(rz.NOBLOCK)
SNDMORE = int(rz.SNDMORE)
POLLIN, POLLOUT, POLLERR = int(rz.POLLIN), int(rz.POLLOUT), int(rz.POLLERR)
WIRE_BYTES = 2_500_000
RECONNECT = 100 * MS

COMPAT = {DEALER: {ROUTER, DEALER, REP}, ROUTER: {DEALER, ROUTER, REQ}, PAIR: {PAIR},
          PUSH: {PULL}, PULL: {PUSH}}


def _again():
    return rz.error.Again(rz.EAGAIN)


def _err(errno, addr=None):
    e = rz.ZMQError(errno)
    return e


class Net:
    """All hosts' TCP: listeners, connections, partitions."""

    def __init__(self, k):
        self.k = k
        self.listeners = {}        # (host, ip, port) -> Socket
        self.inproc = {}           # (proc.pid, name) -> Socket
        self.next_port = 40000
        self.conns = []
        self.partitioned = {}      # frozenset({hostA, hostB}) -> until (ns)
        self.delay_extra = {}      # conn id -> ns
        self.msgs = 0
        self.delivered = 0
        self.bytes = 0

    # --- addressing
    def alloc_port(self, host, ip):
        reuse = self.k.cfg.get('port_reuse')
        p = 40000 if reuse else self.next_port
        while (host.name, p) in {(h, q) for (h, _, q) in self.listeners}:
            p += 1
        self.next_port = max(self.next_port, p) + 1
        return p

    def find_listener(self, from_host, ip, port):
        if ip in ('127.0.0.1', 'localhost'):
            target = from_host
        else:
            target = None
            for h in from_host.world.hosts:
                if h.ip == ip:
                    target = h
            if target is None:
                return None, None
        for key in ((target.name, ip, port), (target.name, '127.0.0.1', port),
                    (target.name, '0.0.0.0', port)):
            if key[1] == '127.0.0.1' and ip not in ('127.0.0.1', 'localhost'):
                continue
            s = self.listeners.get(key)
            if s is not None:
                return target, s
        return target, None

    def blocked_until(self, ha, hb):
        if ha is hb:
            return 0
        t = self.partitioned.get(frozenset((ha.name, hb.name)), 0)
        return t if t > self.k.now else 0

    def latency(self, ha, hb):
        d = self.k.choices.table(self.k.cfg['net_delays'])
        if ha is not hb:
            d += self.k.cfg.get('wan_delay', 0)
        return d

    # --- faults
    def partition(self, ha, hb, dur):
        key = frozenset((ha.name, hb.name))
        self.partitioned[key] = max(self.partitioned.get(key, 0), self.k.now + dur)
        self.k.fault('partition')

    def reset(self, idx):
        live = [c for c in self.conns if c.state == 'up' and not c.inproc and c.a.proc is not c.b.proc]
        if not live:
            return False
        c = live[idx % len(live)]
        c.reset()
        self.k.fault('connection_reset')
        return True


class Pipe:
    """One direction of a connection as libzmq sees it: sender queue (SNDHWM) ->
    wire -> receiver queue (RCVHWM)."""
    __slots__ = ('outq', 'wire', 'inq', 'last', 'src', 'dst', 'conn', 'wire_bytes', 'dead', 'retry', 'full')

    def __init__(self, conn, src, dst):
        self.conn = conn
        self.src = src
        self.dst = dst
        self.outq = []
        self.wire = []
        self.inq = []
        self.last = 0
        self.wire_bytes = 0
        self.dead = False
        self.retry = False
        self.full = False


class Conn:
    """A connection between a connecting socket and a bound socket."""
    __slots__ = ('net', 'k', 'a', 'b', 'ip', 'port', 'state', 'ab', 'ba', 'ident_b', 'ignored',
                 'epoch', 'ha', 'hb', 'id', 'inproc', 'established_once', 'ident_a', 'linger_ev',
                 'closing')

    def __init__(self, net, a, ip, port, inproc=False):
        self.net = net
        self.k = net.k
        self.a = a                 # connecting socket
        self.b = None              # bound socket
        self.ip, self.port = ip, port
        self.state = 'connecting'
        self.ab = Pipe(self, a, None)
        self.ba = Pipe(self, None, a)
        self.ident_b = None
        self.ignored = False
        self.epoch = 0
        self.ha = a.proc.host
        self.hb = None
        self.inproc = inproc
        self.closing = False
        self.established_once = False
        self.id = len(net.conns)
        net.conns.append(self)

    def start(self, delay=0):
        self.epoch += 1
        self.k.after(delay + self.net.latency(self.ha, self.ha) + 100 * US, self._try, self.epoch)

    def _try(self, epoch):
        if epoch != self.epoch or self.state in ('up', 'closed'):
            return
        target, lst = self.net.find_listener(self.ha, self.ip, self.port)
        blocked = self.net.blocked_until(self.ha, target) if target else 0
        if blocked:
            self.start(blocked - self.k.now)
            return
        if lst is None or lst.closed or lst.type not in SUPPORTED or \
                self.a.type not in COMPAT[lst.type]:
            self.start(RECONNECT)
            return
        if target is not None and target.down:
            self.start(RECONNECT)
            return
        # handshake: another round trip
        self.k.after(2 * self.net.latency(self.ha, target) + 200 * US, self._up, epoch, lst, target)

    def _up(self, epoch, lst, target):
        if epoch != self.epoch or self.state in ('up', 'closed'):
            return
        if lst.closed or (lst.proc.state != 'running'):
            self.start(RECONNECT)
            return
        if lst.type == PAIR and lst.pipes:
            # PAIR accepts only one peer at a time
            self.start(RECONNECT)
            return
        self.state = 'up'
        self.established_once = True
        self.b = lst
        self.hb = target
        self.ab.dst = lst
        self.ba.src = lst
        self.ba.outq = []
        self.ba.wire = []
        self.ab.wire = []
        self.ab.inq = []
        self.ab.wire_bytes = self.ba.wire_bytes = 0
        for p in (self.ab, self.ba):
            p.retry = p.full = False
        self.ignored = False
        self.ident_b = None
        lst.attach(self)
        self.pump(self.ab)
        self.a.notify()

    # -- data
    def other(self, s):
        return self.b if s is self.a else self.a

    def send_pipe(self, s):
        return self.ab if s is self.a else self.ba

    def recv_pipe(self, s):
        return self.ba if s is self.a else self.ab

    def can_send(self, s):
        p = self.send_pipe(s)
        hwm = s.opts['sndhwm']
        return hwm <= 0 or len(p.outq) < hwm

    def push(self, s, frames):
        p = self.send_pipe(s)
        p.outq.append((self.k.now, frames))
        self.pump(p)

    def pump(self, p):
        if self.state != 'up':
            return
        k = self.k
        rh = p.dst.opts['rcvhwm']
        while p.outq:
            if not self.inproc and rh > 0 and len(p.inq) >= rh and p.wire_bytes >= WIRE_BYTES:
                return
            if self.inproc and rh > 0 and len(p.inq) + len(p.wire) >= rh:
                return
            if rh > 0 and len(p.inq) + len(p.wire) >= rh and p.wire_bytes >= WIRE_BYTES:
                return
            sent, frames = p.outq.pop(0)
            size = sum(map(len, frames)) + 10
            p.wire_bytes += size
            net = self.net
            net.msgs += 1
            net.bytes += size
            if net.bytes > k.cfg['max_bytes']:
                k.stop('max_bytes')
            if self.inproc:
                d = k.now
            else:
                handoff = 10 * US
                blocked = net.blocked_until(p.src.proc.host, p.dst.proc.host)
                lat = net.latency(p.src.proc.host, p.dst.proc.host)
                if blocked:
                    lat += blocked - k.now
                    k.fault('delayed_by_partition')
                d = k.now + handoff + lat
            d = max(d, p.last + 1)
            p.last = d
            ent = [k.now, frames, size, self.epoch, False]
            p.wire.append(ent)
            k.at(d, self._deliver, p, ent)
            k.msg_count += 1
            trig = k.msg_triggers.pop(k.msg_count, None)
            if trig:
                for fn in trig:
                    k.after(0, fn)

    def _deliver(self, p, ent):
        """The head of the stream arrives unless the path or the receiver is blocked."""
        if ent is not None:
            ent[4] = True
        else:
            p.retry = False
        wire = p.wire
        got = False
        while wire and wire[0][4] and not p.retry:
            if not self.inproc:
                blocked = self.net.blocked_until(p.src.proc.host, p.dst.proc.host)
                if blocked:
                    p.retry = True
                    self.k.at(blocked + self.net.latency(self.ha, self.ha), self._deliver, p, None)
                    break
                rh = p.dst.opts['rcvhwm']
                if rh > 0 and len(p.inq) >= rh:
                    # receive queue is full: stays in the TCP buffers until something is read
                    self.k.probe('receiver_full')
                    p.full = True
                    break
            e = wire.pop(0)
            p.wire_bytes -= e[2]
            p.inq.append(e[1])
            self.net.delivered += 1
            p.dst.proc.heard.add(p.src.proc)
            got = True
        if got:
            self.pump(p)
            p.dst.notify()
            p.src.notify()

    def consumed(self, p):
        """The receiver took a message."""
        if p.full:
            p.full = False
            self._deliver(p, None)
        self.pump(p)

    # -- failure
    def reset(self):
        """Connection lost: data on the wire is gone, both ends notice."""
        if self.state != 'up':
            return
        lost = len(self.ab.wire) + len(self.ba.wire) + len(self.ba.outq)
        if lost:
            self.k.fault('messages_lost', lost)
        self._drop_b()
        self.ab.wire = []
        self.ba.wire = []
        self.ab.wire_bytes = self.ba.wire_bytes = 0
        self.state = 'connecting'
        if self.a.closed and not self.ab.outq:
            self.state = 'closed'
        else:
            self.start(RECONNECT)

    def _drop_b(self):
        b = self.b
        if b is not None:
            # what the bound side already received stays readable
            b.detach(self)
        self.b = None
        self.ba.outq = []

    def peer_gone(self, killed):
        """The bound socket was closed or its process died."""
        if self.state != 'up':
            return
        # data already handed to the kernel still arrives at the connector
        b = self.b
        pend = list(self.ba.wire)
        if killed:
            cut = self.k.now - 30 * US
            keep = [e for e in pend if e[0] <= cut]
            if len(keep) != len(pend):
                self.k.fault('messages_lost', len(pend) - len(keep))
            pend = keep
        for e in pend:
            self.ba.inq.append(e[1])
            self.a.proc.heard.add(b.proc)
        self.ba.wire = []
        self.ba.wire_bytes = 0
        if self.ab.wire:
            self.k.fault('messages_lost', len(self.ab.wire))
        self.ab.wire = []
        self.ab.wire_bytes = 0
        self._drop_b()
        self.state = 'connecting'
        self.a.notify()
        if self.inproc or self.a.closed:
            self.state = 'closed'
        else:
            self.start(RECONNECT)

    def connector_closed(self, killed, linger):
        """The connecting socket was closed (or its process died)."""
        if self.state == 'closed':
            return
        if self.state == 'up':
            if killed:
                cut = self.k.now - 30 * US
                keep = [e for e in self.ab.wire if e[0] <= cut]
                if len(keep) != len(self.ab.wire):
                    self.k.fault('messages_lost', len(self.ab.wire) - len(keep))
                self.ab.wire = keep
                self.ab.outq = []
            self._finish_close(self.k.now + (0 if killed else max(0, linger)))
        else:
            if killed or linger == 0 or not self.ab.outq:
                self.state = 'closed'
                self.epoch += 1
            else:
                # keeps trying to connect for `linger`
                self.closing = True
                self.k.at(self.k.now + linger, self._linger_over, self.epoch)

    def _linger_over(self, epoch):
        if self.state != 'up':
            self.state = 'closed'
            self.epoch += 1

    def _finish_close(self, until, step=50 * US):
        """Deliver what is left, then tell the bound side we are gone."""
        if self.state != 'up':
            return
        if (self.ab.wire or self.ab.outq) and (self.ab.wire or self.k.now < until):
            self.k.after(step, self._finish_close, until, min(2 * step, 5 * MS))
            return
        self.k.after(30 * US, self._gone)

    def _gone(self):
        if self.state == 'up':
            self.state = 'closed'
            self.epoch += 1
            b = self.b
            if b is not None:
                b.detach(self)
            self.b = None


class _Opts(dict):
    pass


class SimSocket:
    """Stand-in for zmq.Socket."""

    def __init__(self, ctx, stype):
        d = self.__dict__
        d['ctx'] = ctx
        d['context'] = ctx
        d['type'] = stype
        d['proc'] = ctx.proc
        d['k'] = ctx.k
        d['net'] = ctx.net
        d['closed'] = False
        hwm = ctx.k.cfg['hwm']
        d['opts'] = {'linger': -1, 'rcvtimeo': -1, 'sndtimeo': -1, 'sndhwm': hwm, 'rcvhwm': hwm,
                     'identity': b'', 'last_endpoint': b'', 'mandatory': 0, 'handover': 0,
                     'immediate': 0, 'reconnect_ivl': 100}
        d['pipes'] = []            # usable connections (bound side: established)
        d['draining'] = []         # dead connections with readable leftovers
        d['conns'] = []            # connections made by connect()
        d['bound'] = []
        d['by_ident'] = {}
        d['rr'] = 0
        d['stale_ids'] = False
        d['rcv_frames'] = []
        d['snd_frames'] = []
        d['waiters'] = []
        d['busy'] = None
        d['rcv_rr'] = 0
        d['last_task'] = None
        d['sid'] = ctx.world.next_id('sock')
        ctx.world.sockets.append(weakref.ref(self))
        ctx.sockets.append(weakref.ref(self))

    # -- thread-use monitor: libzmq sockets must not be used concurrently
    def _enter(self, op):
        if self.closed:
            raise _err(rz.ENOTSOCK)
        t = self.k.current
        b = self.busy
        if b is not None and b is not t and b.state != kmod.DEAD:
            self.k.anomaly('socket-shared', 'zmq socket %d (%s) used by task %s (%s) while task %s is '
                           'inside a call on it' % (self.sid, tname(self.type), t.name, op, b.name))
        if self.type == rz.DEALER and op in ('send', 'recv'):
            b = self.last_task
            if b is not None and b is not t and b.state != kmod.DEAD:
                self.k.anomaly('connection-moved', 'zmq socket %d (%s) used by task %s (%s), before by task %s' % (
                    self.sid, tname(self.type), t.name, op, b.name))
            self.__dict__['last_task'] = t
        self.__dict__['busy'] = t
        if self.stale_ids:
            self._process_commands()
        try:
            self.k.point('zmq.' + op)
        except BaseException:
            self.__dict__['busy'] = None
            raise
        if self.closed:
            self.__dict__['busy'] = None
            raise _err(rz.ENOTSOCK)

    def _process_commands(self):
        self.__dict__['stale_ids'] = False
        for i, c in list(self.by_ident.items()):
            if isinstance(c, Leftover) and not c.inq:
                del self.by_ident[i]

    def _exit(self):
        self.__dict__['busy'] = None

    def notify(self):
        ws = self.waiters
        if ws:
            for t in list(ws):
                self.k.unpark(t)

    # -- options
    _OPT = {}

    def _optname(self, opt):
        try:
            return OPTNAMES[int(opt)]
        except (KeyError, TypeError, ValueError):
            raise HarnessError('unsupported zmq option %r' % (opt,))

    def setsockopt(self, opt, value):
        if self.closed:
            raise _err(rz.ENOTSOCK)
        n = self._optname(opt)
        if n != 'identity' and not isinstance(value, int):
            raise TypeError('%s needs an int, not %r' % (n, value))
        if n == 'hwm':
            self.opts['sndhwm'] = self.opts['rcvhwm'] = value
        else:
            if n == 'identity':
                if isinstance(value, str):
                    raise TypeError('identity must be bytes')
                if len(value) > 255 or len(value) == 0:
                    raise _err(rz.EINVAL)
            self.opts[n] = value

    set = setsockopt

    def setsockopt_string(self, opt, value, encoding='utf-8'):
        self.setsockopt(opt, value.encode(encoding))

    set_string = setsockopt_string

    def getsockopt(self, opt):
        if self.closed:
            raise _err(rz.ENOTSOCK)
        n = int(opt)
        if n == int(rz.EVENTS):
            return self._events()
        if n == int(rz.RCVMORE):
            return int(bool(self.rcv_frames))
        if n == int(rz.TYPE):
            return self.type
        n = self._optname(opt)
        if n == 'hwm':
            n = 'sndhwm'
        return self.opts[n]

    get = getsockopt

    def get_hwm(self):
        return self.opts['sndhwm']

    def set_hwm(self, v):
        self.setsockopt(rz.HWM, v)

    def __setattr__(self, name, value):
        if name in ATTR_OPTS:
            self.setsockopt(ATTR_OPTS[name], value)
        elif name == 'hwm':
            self.set_hwm(value)
        else:
            self.__dict__[name] = value

    def __getattr__(self, name):
        if name in ATTR_OPTS:
            return self.getsockopt(ATTR_OPTS[name])
        if name == 'hwm':
            return self.get_hwm()
        if name.startswith('__'):
            raise AttributeError(name)
        up = name.upper()
        if hasattr(rz, up):
            raise HarnessError('unsupported zmq socket attribute %r' % name)
        raise AttributeError(name)

    # -- binding / connecting
    def bind(self, addr):
        if isinstance(addr, bytes):
            addr = addr.decode()
        self._enter('bind')
        try:
            if addr.startswith('inproc://'):
                key = (self.proc.pid, addr)
                if key in self.net.inproc:
                    raise _err(rz.EADDRINUSE)
                self.net.inproc[key] = self
                self.bound.append(key)
                self.opts['last_endpoint'] = addr.encode()
                for c in list(self.proc.pending_inproc.get(addr, ())):
                    c._up(c.epoch, self, self.proc.host)
                return self
            m = re.match(r'^tcp://([^:]+):(\d+|\*)$', addr)
            if not m:
                raise _err(rz.EINVAL)
            ip, port = m.groups()
            host = self.proc.host
            if ip == '*':
                ip = '0.0.0.0'
            if ip == 'localhost':
                ip = '127.0.0.1'
            if not re.match(r'^\d+\.\d+\.\d+\.\d+$', ip):
                raise _err(errno.ENODEV)
            if ip not in ('127.0.0.1', '0.0.0.0', host.ip):
                raise _err(rz.EADDRNOTAVAIL)
            if port in ('*', '0'):
                port = self.net.alloc_port(host, ip)
            port = int(port) & 0xFFFF
            for (h, i, p) in self.net.listeners:
                if h == host.name and p == port and (i == ip or '0.0.0.0' in (i, ip)):
                    raise _err(rz.EADDRINUSE)
            key = (host.name, ip, port)
            self.net.listeners[key] = self
            self.bound.append(key)
            self.opts['last_endpoint'] = ('tcp://%s:%d' % (ip, port)).encode()
            return self
        finally:
            self._exit()

    def bind_to_random_port(self, addr, *a, **k):
        self.bind(addr + ':*')
        return int(self.opts['last_endpoint'].rsplit(b':', 1)[1])

    def unbind(self, addr):
        self._unbind()

    def connect(self, addr):
        if isinstance(addr, bytes):
            addr = addr.decode()
        if not isinstance(addr, str):
            raise TypeError('expected str or bytes, got %r' % (addr,))
        self._enter('connect')
        try:
            if addr.startswith('inproc://'):
                c = Conn(self.net, self, addr, 0, inproc=True)
                self.conns.append(c)
                self.pipes.append(c)
                self.opts['last_endpoint'] = addr.encode()
                lst = self.net.inproc.get((self.proc.pid, addr))
                if lst is not None:
                    c._up(c.epoch, lst, self.proc.host)
                else:
                    self.proc.pending_inproc.setdefault(addr, []).append(c)
                return self
            m = re.match(r'^tcp://([^:]+):(\d+)$', addr)
            if not m:
                raise _err(rz.EINVAL)
            ip, port = m.groups()
            if not (re.match(r'^\d+\.\d+\.\d+\.\d+$', ip) or ip == 'localhost'):
                raise _err(rz.EINVAL)
            if ip == '0.0.0.0':
                ip = '127.0.0.1'
            c = Conn(self.net, self, ip, int(port) & 0xFFFF)
            self.conns.append(c)
            self.pipes.append(c)
            self.opts['last_endpoint'] = addr.encode()
            c.start()
            return self
        finally:
            self._exit()

    def disconnect(self, addr):
        for c in list(self.conns):
            self.conns.remove(c)
            if c in self.pipes:
                self.pipes.remove(c)
            c.connector_closed(False, self.opts['linger'] * MS)

    def attach(self, conn):
        """Bound side: a peer finished its handshake."""
        if self.type == ROUTER:
            ident = conn.a.opts['identity']
            if not ident:
                ident = self._gen_ident()
            if ident in self.by_ident:
                if self.opts['handover']:
                    # the old pipe gets a generated id and can only be drained
                    old = self.by_ident.pop(ident)
                    if isinstance(old, Leftover):
                        old.ident = self._gen_ident()
                    else:
                        self.by_ident[ident] = old
                        old.reset()
                        left = self.by_ident.pop(ident)
                        left.ident = self._gen_ident()
                    self.k.probe('router_handover')
                else:
                    conn.ignored = True
                    self.k.probe('router_ignored_duplicate_identity')
                    return
            conn.ident_b = ident
            self.by_ident[ident] = conn
        self.pipes.append(conn)
        self.notify()

    def _gen_ident(self):
        n = self.ctx.world.next_id('ident')
        # arbitrary bytes; often not valid utf-8
        return b'\x00' + ((n * 2654435761 + 0x9c) & 0xFFFFFFFF).to_bytes(4, 'big')

    def detach(self, conn):
        """Bound side: the peer's connection ended; what was received stays readable and,
        as in libzmq, a ROUTER keeps the routing id until that has been read."""
        if conn in self.pipes:
            self.pipes.remove(conn)
            if conn.ab.inq:
                left = Leftover(conn, conn.ab.inq)
                self.draining.append(left)
                conn.ab.inq = []
                if self.type == ROUTER:
                    self.by_ident[conn.ident_b] = left
            elif self.type == ROUTER:
                # the id is freed when the owner of the socket next processes commands
                self.by_ident[conn.ident_b] = Leftover(conn, [])
                self.__dict__['stale_ids'] = True
        self.notify()

    def _unbind(self):
        for key in self.bound:
            if len(key) == 3:
                if self.net.listeners.get(key) is self:
                    del self.net.listeners[key]
            elif self.net.inproc.get(key) is self:
                del self.net.inproc[key]
        self.__dict__['bound'] = []

    def close(self, linger=None):
        if self.closed:
            return
        t = self.k.current
        b = self.busy
        if b is not None and b is not t and b.state != kmod.DEAD and t is not None:
            self.k.anomaly('socket-shared', 'zmq socket %d (%s) closed by task %s while task %s is inside a '
                           'call on it' % (self.sid, tname(self.type), t.name, b.name))
        if linger is not None:
            self.opts['linger'] = linger
        # (without lingering, the I/O thread drops what it did not pick up yet)
        self._do_close(killed=False, abrupt=self.opts['linger'] == 0)
        if t is not None and t.proc is self.proc and not self.k.in_kernel:
            self.k.point('zmq.close')

    def _do_close(self, killed, abrupt=False):
        if self.closed:
            return
        self.__dict__['closed'] = True
        ln = self.opts['linger']
        ln = 3600 * SEC if ln is None or ln < 0 else int(ln) * MS
        self._unbind()
        if self.conns:
            for c in self.conns:
                c.connector_closed(killed or abrupt and not c.inproc, ln)
        for c in list(self.pipes):
            if c.b is self:
                if killed or abrupt and not c.inproc or not (c.ba.outq or c.ba.wire):
                    c.peer_gone(killed or abrupt and not c.inproc)
                else:
                    self._linger_peer(c, self.k.now + ln)
        self.__dict__['pipes'] = []
        self.__dict__['draining'] = []
        self.by_ident.clear()
        self.notify()

    def _linger_peer(self, c, until, step=50 * US):
        if c.state != 'up' or c.b is not self:
            return
        if (c.ba.outq or c.ba.wire) and self.k.now < until and self.proc.state == 'running':
            self.k.after(step, self._linger_peer, c, until, min(2 * step, 5 * MS))
            return
        c.peer_gone(self.proc.state != 'running' and self.proc.killed)

    def pending_bytes(self):
        n = 0
        for c in self.conns:
            if c.state == 'up':
                n += len(c.ab.outq) + len(c.ab.wire)
        for c in self.net.conns:
            if c.b is self and c.state == 'up':
                n += len(c.ba.outq) + len(c.ba.wire)
        return n

    def unconnected_pending(self):
        return any(c.state == 'connecting' and c.ab.outq for c in self.conns)

    def __del__(self):
        try:
            if not self.closed:
                self._do_close(killed=False)
        except Exception:
            pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- receiving
    def _readable_from(self):
        out = []
        for c in self.draining:
            if c.inq:
                out.append(c)
        for c in self.pipes:
            if c.recv_pipe(self).inq and not c.ignored:
                out.append(c)
        return out

    def _recv_ready(self):
        if self.rcv_frames:
            return True
        for c in self.draining:
            if c.inq:
                return True
        for c in self.pipes:
            if c.recv_pipe(self).inq and not c.ignored:
                return True
        return False

    def _take(self):
        """Pop one whole message (list of frames), or None."""
        src = self._readable_from()
        if not src:
            return None
        # leftovers of closed peers and live peers are fair-queued
        if len(src) > 1:
            self.__dict__['rcv_rr'] = self.rcv_rr + 1
            c = src[self.rcv_rr % len(src)]
            if self.k.choices.flip(0.3):
                c = src[self.k.choices.pick(len(src))]
        else:
            c = src[0]
        if isinstance(c, Leftover):
            frames = c.inq.pop(0)
            ident = c.ident
            if not c.inq:
                self.draining.remove(c)
                if self.by_ident.get(ident) is c:
                    del self.by_ident[ident]
        else:
            p = c.recv_pipe(self)
            frames = p.inq.pop(0)
            ident = c.ident_b
            c.consumed(p)
        if self.type == ROUTER:
            return [ident] + list(frames)
        return list(frames)

    def _recv_msg(self, flags):
        self._enter('recv')
        k = self.k
        try:
            if self.type == PUSH:
                raise _err(rz.ENOTSUP)
            m = self._take()
            if m is None:
                if flags & NOBLOCK:
                    to = 0
                else:
                    to = self.opts['rcvtimeo']
                if to == 0:
                    k.idle_spin()
                    if self.closed:
                        raise _err(rz.ENOTSOCK)
                    m = self._take()
                    if m is None:
                        raise _again()
                else:
                    deadline = None if to < 0 else k.now + int(to) * MS
                    while m is None:
                        if not self._wait(deadline):
                            m = self._take()
                            if m is None:
                                raise _again()
                            break
                        m = self._take()
            k.current.spin = 0
            return m
        finally:
            self._exit()

    def _wait(self, deadline):
        """Park until notified; False at the deadline."""
        t = self.k.current
        if deadline is not None and self.k.now >= deadline:
            return False
        self.waiters.append(t)
        try:
            self.k.park(deadline, on='zmq %s #%d' % (tname(self.type), self.sid))
        finally:
            if t in self.waiters:
                self.waiters.remove(t)
        if self.closed:
            raise _err(rz.ENOTSOCK)
        return deadline is None or self.k.now < deadline

    def recv_multipart(self, flags=0, copy=True, track=False):
        if self.rcv_frames:
            m = self.rcv_frames
            self.__dict__['rcv_frames'] = []
            return m
        return self._recv_msg(int(flags))

    def recv(self, flags=0, copy=True, track=False):
        if not self.rcv_frames:
            self.__dict__['rcv_frames'] = self._recv_msg(int(flags))
        return self.rcv_frames.pop(0)

    def recv_string(self, flags=0, encoding='utf-8'):
        return self.recv(flags).decode(encoding)

    recv_unicode = recv_string

    def recv_json(self, flags=0, **kw):
        import json
        return json.loads(self.recv(flags), **kw)

    def recv_pyobj(self, flags=0):
        import pickle
        return pickle.loads(self.recv(flags))

    def recv_into(self, *a, **k):
        raise HarnessError('recv_into')

    # -- sending
    def _send_target(self, frames):
        """-> ('ok', conn, frames) | ('drop',) | ('wait',)"""
        if self.type == ROUTER:
            c = self.by_ident.get(frames[0])
            if c is None or isinstance(c, Leftover):
                if self.opts['mandatory']:
                    raise _err(rz.EHOSTUNREACH)
                self.k.probe('router_drop_unknown')
                return ('drop',)
            if not c.can_send(self):
                self.k.probe('router_drop_full')
                return ('drop',)
            return ('ok', c, frames[1:])
        if self.type == PULL:
            raise _err(rz.ENOTSUP)
        pipes = self.pipes
        n = len(pipes)
        for i in range(n):
            c = pipes[(self.rr + i) % n]
            if c.can_send(self):
                self.__dict__['rr'] = (self.rr + i + 1) % n
                return ('ok', c, frames)
        return ('wait',)

    def _send_msg(self, frames, flags):
        self._enter('send')
        k = self.k
        try:
            for f in frames:
                if not isinstance(f, (bytes, bytearray, memoryview)):
                    raise TypeError('%r does not support the buffer interface.' % (f,))
            frames = [bytes(f) for f in frames]
            r = self._send_target(frames)
            if r[0] == 'wait':
                to = 0 if flags & NOBLOCK else self.opts['sndtimeo']
                if to == 0:
                    k.idle_spin()
                    raise _again()
                deadline = None if to < 0 else k.now + int(to) * MS
                k.probe('send_blocked_on_hwm')
                while r[0] == 'wait':
                    if not self._wait(deadline):
                        raise _again()
                    r = self._send_target(frames)
            if r[0] == 'ok':
                r[1].push(self, r[2])
            k.current.spin = 0
        finally:
            self._exit()

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        parts = list(msg_parts)
        for i, f in enumerate(parts):
            if not isinstance(f, (bytes, bytearray, memoryview)):
                raise TypeError('Frame %d (%r) does not support the buffer interface.' % (i, f))
        if not parts:
            raise ValueError('empty message')
        if self.snd_frames:
            parts = self.snd_frames + parts
            self.__dict__['snd_frames'] = []
        self._send_msg(parts, int(flags))

    def send(self, data, flags=0, copy=True, track=False, **kw):
        if isinstance(data, str):
            raise TypeError('unicode not allowed, use send_string')
        if int(flags) & SNDMORE:
            self.snd_frames.append(bytes(data))
            return
        parts = self.snd_frames + [data]
        self.__dict__['snd_frames'] = []
        self._send_msg(parts, int(flags))

    def send_string(self, u, flags=0, copy=True, encoding='utf-8', **kw):
        self.send(u.encode(encoding), flags)

    send_unicode = send_string

    def send_json(self, obj, flags=0, **kw):
        import json
        self.send(json.dumps(obj).encode('utf-8'), flags)

    def send_pyobj(self, obj, flags=0, protocol=-1, **kw):
        import pickle
        self.send(pickle.dumps(obj, protocol), flags)

    # -- polling
    def _events(self):
        e = 0
        if self.stale_ids:
            self._process_commands()
        if self.type != PUSH and self._recv_ready():
            e |= POLLIN
        if self.type == ROUTER:
            e |= POLLOUT
        elif self.type != PULL and any(c.can_send(self) for c in self.pipes):
            e |= POLLOUT
        return e

    def poll(self, timeout=None, flags=POLLIN):
        if self.closed:
            raise _err(rz.ENOTSUP)
        p = SimPoller(self.ctx)
        p.register(self, flags)
        evs = dict(p.poll(timeout))
        return evs.get(self, 0)

    def fileno(self):
        raise HarnessError('zmq fileno')

    @property
    def underlying(self):
        raise HarnessError('zmq underlying')

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return '<SimSocket %s #%d%s>' % (tname(self.type), self.sid, ' closed' if self.closed else '')


class Leftover:
    __slots__ = ('inq', 'ident')

    def __init__(self, conn, inq):
        self.inq = inq
        self.ident = conn.ident_b


def tname(t):
    return {ROUTER: 'ROUTER', DEALER: 'DEALER', PAIR: 'PAIR', PUSH: 'PUSH', PULL: 'PULL'}.get(t, str(t))


OPTNAMES = {}
ATTR_OPTS = {}
for _n, _o in [('linger', 'LINGER'), ('rcvtimeo', 'RCVTIMEO'), ('sndtimeo', 'SNDTIMEO'),
               ('sndhwm', 'SNDHWM'), ('rcvhwm', 'RCVHWM'), ('identity', 'IDENTITY'),
               ('identity', 'ROUTING_ID'), ('last_endpoint', 'LAST_ENDPOINT'),
               ('mandatory', 'ROUTER_MANDATORY'), ('handover', 'ROUTER_HANDOVER'),
               ('immediate', 'IMMEDIATE'), ('reconnect_ivl', 'RECONNECT_IVL'),
               ('reconnect_ivl_max', 'RECONNECT_IVL_MAX'), ('backlog', 'BACKLOG'),
               ('ipv6', 'IPV6'), ('tcp_keepalive', 'TCP_KEEPALIVE'),
               ('tcp_keepalive_idle', 'TCP_KEEPALIVE_IDLE'),
               ('connect_timeout', 'CONNECT_TIMEOUT'), ('sndbuf', 'SNDBUF'), ('rcvbuf', 'RCVBUF'),
               ('handshake_ivl', 'HANDSHAKE_IVL'), ('maxmsgsize', 'MAXMSGSIZE')]:
    OPTNAMES[int(getattr(rz, _o))] = _n
    ATTR_OPTS[_o.lower()] = int(getattr(rz, _o))
try:
    OPTNAMES[int(rz.HWM)] = 'hwm'
except Exception:
    pass
for _extra in ('backlog', 'ipv6', 'tcp_keepalive', 'tcp_keepalive_idle', 'connect_timeout', 'sndbuf',
               'rcvbuf', 'handshake_ivl', 'maxmsgsize', 'reconnect_ivl_max'):
    pass


class SimPoller:
    def __init__(self, ctx):
        self._ctx = ctx
        self.sockets = []

    def register(self, socket, flags=POLLIN | POLLOUT):
        flags = int(flags)
        self.unregister(socket, missing_ok=True)
        if flags:
            self.sockets.append((socket, flags))

    def modify(self, socket, flags=POLLIN | POLLOUT):
        self.register(socket, flags)

    def unregister(self, socket, missing_ok=False):
        for i, (s, f) in enumerate(self.sockets):
            if s is socket:
                del self.sockets[i]
                return
        if not missing_ok:
            raise KeyError(socket)

    def __contains__(self, socket):
        return any(s is socket for s, _ in self.sockets)

    def _ready(self, proc):
        out = []
        for s, f in self.sockets:
            if not isinstance(s, SimSocket):
                raise HarnessError('polling a non-zmq object %r' % (s,))
            if s.closed:
                # a closed handle is NULL, which zmq_poll takes for file descriptor 0
                if proc.stdin_readable and f & POLLIN:
                    out.append((0, POLLIN))
                continue
            e = s._events() & f
            if e:
                out.append((s, e))
        return out

    def poll(self, timeout=None):
        k = kmod.K
        t = k.current
        if not self.sockets:
            k.point('zmq.poll')
            return []           # pyzmq does not wait for nothing
        for s, f in self.sockets:
            if isinstance(s, SimSocket) and not s.closed:
                b = s.busy
                if b is not None and b is not t and b.state != kmod.DEAD:
                    k.anomaly('socket-shared', 'zmq socket %d (%s) polled by task %s while task %s is '
                              'inside a call on it' % (s.sid, tname(s.type), t.name, b.name))
        socks = [s for s, f in self.sockets if isinstance(s, SimSocket) and not s.closed]
        for s in socks:
            s.__dict__['busy'] = t
        try:
            k.point('zmq.poll')
            r = self._ready(t.proc)
            if timeout is None or timeout < 0:
                deadline = None
            else:
                deadline = k.now + int(timeout) * MS
            while not r:
                if deadline is not None and k.now >= deadline:
                    if int(timeout) == 0:
                        k.idle_spin()
                        r = self._ready(t.proc)
                    return r
                for s in socks:
                    if not s.closed:
                        s.waiters.append(t)
                try:
                    k.park(deadline, on='poll')
                finally:
                    for s in socks:
                        if t in s.waiters:
                            s.waiters.remove(t)
                r = self._ready(t.proc)
            if r and all(not isinstance(s, SimSocket) for s, _ in r):
                k.idle_spin()
            else:
                t.spin = 0
            return r
        finally:
            for s in socks:
                if s.busy is t:
                    s.__dict__['busy'] = None


class SimContext:
    def __init__(self, io_threads=1, **kw):
        self.closed = False
        self.sockets = []

    def _bind_proc(self, proc):
        self.proc = proc
        self.k = proc.k
        self.world = proc.world
        self.net = proc.world.net
        return self

    def socket(self, socket_type, socket_class=None, **kw):
        st = int(socket_type)
        if st not in SUPPORTED:
            raise HarnessError('unsupported zmq socket type %r' % socket_type)
        self.k.point('zmq.socket')
        s = SimSocket(self, st)
        for o, v in kw.items():
            setattr(s, o, v)
        return s

    def term(self):
        self.closed = True

    def destroy(self, linger=None):
        for r in self.sockets:
            s = r()
            if s is not None:
                s.close(linger)
        self.closed = True

    def set(self, *a):
        pass

    setsockopt = set

    def get(self, *a):
        return 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.term()


def make_zmq_module(proc):
    """A per-process `zmq` module: simulated sockets, real constants and exceptions."""
    m = types.ModuleType('zmq')

    class Context(SimContext):
        _instance = None

        def __init__(self, *a, **k):
            SimContext.__init__(self, *a, **k)
            self._bind_proc(proc)

        @classmethod
        def instance(cls, io_threads=1):
            if cls._instance is None or cls._instance.closed:
                cls._instance = Context()
            return cls._instance

    class Poller(SimPoller):
        def __init__(self):
            SimPoller.__init__(self, None)

    def zpoll(sockets, timeout=-1):
        p = Poller()
        for s, f in sockets:
            p.register(s, f)
        return p.poll(timeout)

    def __getattr__(name):
        v = getattr(rz, name)
        if isinstance(v, int) or (isinstance(v, type) and issubclass(v, Exception)) or \
                (isinstance(v, type) and hasattr(v, '__members__')):
            return v
        if name in ('zmq_version', 'pyzmq_version', '__version__', 'zmq_version_info',
                    'pyzmq_version_info', 'strerror'):
            return v
        raise HarnessError('unsupported zmq API %r' % name)

    m.__getattr__ = __getattr__
    m.Context = Context
    m.Socket = SimSocket
    m.Poller = Poller
    m.zmq_poll = zpoll
    m.error = rz.error
    m.constants = rz.constants
    m.__version__ = rz.__version__
    m.__path__ = []
    return m
