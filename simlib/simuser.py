"""User code that lives in simulated server processes; every call is recorded."""
import datetime
import time
import threading

_k = _k            # noqa: F821  (installed by the loader)
_proc = _proc      # noqa: F821
world = _proc.world


class CustomError(Exception):
    pass


class Box:
    """A plain object that can only travel by proxy."""

    def __init__(self, tag, value=None):
        self.tag = tag
        self.value = value

    def get(self):
        _k.record('box_get', tag=self.tag, pid=_proc.pid)
        return self.value

    def set(self, v):
        self.value = v

    def whoami(self):
        return ['box', self.tag]


def rec(kind, tag):
    _k.record(kind, tag=tag, pid=_proc.pid, th=_k.current.ident)


def work(tag, payload=None, dt=0, mode='value'):
    rec('exec', tag)
    if dt:
        time.sleep(dt)
    rec('exec_end', tag)
    if mode == 'nested':
        # meanwhile other requests may be served, in their order
        import teleprox
        try:
            teleprox.RPCClient.get_client(_proc.world.ctx['helper']).ping(timeout=1.0)
        except Exception:
            pass
        return [tag, payload]
    if mode == 'chain':
        raise CustomError('boom-%s' % tag) from KeyError(tag)
    if mode == 'context':
        try:
            raise KeyError(tag)
        except KeyError:
            raise CustomError('boom-%s' % tag)
    if mode == 'raise':
        raise CustomError('boom-%s' % tag)
    if mode == 'badtext':
        raise ValueError('\udc80 \ud800 ' + tag)
    if mode == 'keyerror':
        raise KeyError(tag)
    if mode == 'exit':
        raise SystemExit('exit-%s' % tag)
    if mode == 'kbint':
        raise KeyboardInterrupt('kb-%s' % tag)
    if mode == 'box':
        return Box(tag, payload)
    if mode == 'intdict':
        return {1: tag, 2: payload}
    if mode == 'objarray':
        import numpy
        return numpy.array([tag, None, 3], dtype=object)
    if mode == 'hugeint':
        return 1 << 80
    if mode == 'badpickle':
        return _BadPickle(2020, 1, 1)
    if mode == 'badexit':
        return [1, _BadExit(2020, 1, 1)]
    if mode == 'cyclic':
        r = [tag]
        r.append(r)
        return r
    if mode == 'poison':
        return [tag, _Poison(2020, 1, 1)]
    if mode == 'badrepr':
        raise BadStr('nobody can read this')
    if mode == 'echo':
        return payload
    if mode == 'none':
        return None
    return [tag, payload]


class _Poison(datetime.datetime):
    """Travels by value, but cannot be decoded."""

    def strftime(self, fmt):
        return 'not a date'

    def isoformat(self, *args, **kwds):
        return 'not a date'


class _BadPickle(datetime.date):
    """Serializable type whose value cannot be serialized."""

    def strftime(self, fmt):
        raise CustomError('cannot encode')

    def isoformat(self, *args, **kwds):
        raise CustomError('cannot encode')


class _BadExit(datetime.date):
    def strftime(self, fmt):
        raise SystemExit('cannot encode')

    def isoformat(self, *args, **kwds):
        raise SystemExit('cannot encode')


class BadStr(Exception):
    def __str__(self):
        raise CustomError('cannot print')
    __repr__ = __str__


class Counter:
    def __init__(self):
        self.n = 0

    def incr(self, tag, by=1):
        rec('exec', tag)
        v = self.n
        time.sleep(0)
        self.n = v + by
        rec('exec_end', tag)
        return self.n

    def read(self):
        return self.n


counter = Counter()


def make_box(tag, value=None):
    return Box(tag, value)


# ---- call trees across servers ------------------------------------------------------
_tls = threading.local()


def peer(name):
    """Proxy to this module in server `name`, for the current thread (None: this thread's own)."""
    import teleprox
    d = _tls.__dict__.setdefault('peers', {})
    addr = world.mail.get('addr:' + name)
    if name in d and d[name][0] == addr:
        return d[name][1]
    for i in range(30):
        try:
            c = teleprox.RPCClient.get_client(addr)
            o = c['user']
            if not isinstance(o, teleprox.ObjectProxy):
                o = None        # our own server: proxies to local objects arrive as the objects
            d[name] = (addr, o)
            return d[name][1]
        except TimeoutError:
            time.sleep(0.05)
    raise RuntimeError('cannot reach %s' % name)


class Relay:
    """Runs plans: trees of calls to servers and back to callers."""

    def run(self, plan, cb=None):
        return relay(plan, cb)


relayer = Relay()


def reach(f, *args, **kw):
    """Call f; the proxy may first have to connect, which has a fixed limit of 1 s, so try again after that."""
    for i in range(20):
        try:
            return f(*args, **kw)
        except TimeoutError as e:
            if 'establish' not in str(e):
                raise
            time.sleep(0.05)
    return f(*args, **kw)


def relay(plan, cb=None):
    import teleprox
    rec('exec', plan['id'])
    if plan.get('dt'):
        time.sleep(plan['dt'])
    mine = relayer if teleprox.RPCServer.get_server() is not None else None
    out = []
    pend = []
    for sub in plan['sub']:
        how, sp = sub['how'], sub['plan']
        if sub['to'] == 'cb':
            f = None if cb is None else cb.run
        else:
            p = peer(sub['to'])
            f = relay if p is None else p.relay
        if f is None:
            out.append(None)
        elif f is relay or not isinstance(f, teleprox.ObjectProxy):
            out.append(f(sp, mine) if how != 'off' else f(sp, None) and 'off')
        elif how == 'sync':
            out.append(reach(f, sp, mine, _timeout=200.0))
        elif how == 'off':
            reach(f, sp, None, _sync='off')
            out.append('off')
        else:
            out.append(None)
            pend.append((len(out) - 1, reach(f, sp, mine, _sync='async')))
    if plan.get('order') == 'rev':
        pend.reverse()
    for i, fut in pend:
        out[i] = fut.result(timeout=200.0)
    rec('exec_end', plan['id'])
    return [plan['id'], out]


# ---- tracked objects (reference lifetime) --------------------------------------------
class Obj:
    """Every creation and every release of an object is recorded."""

    def __init__(self, tag, depth=1):
        self.tag = tag
        self.inner = Obj(tag + '/i', depth - 1) if depth else None
        _k.record('obj_new', tag=tag, pid=_proc.pid)

    def __del__(self):
        _k.record('obj_freed', tag=self.tag, pid=_proc.pid)

    def who(self):
        return self.tag

    def me(self):
        return self

    def same(self, other):
        return [self is other, getattr(other, 'tag', None)]


kept = {}
stash = {}


def make_obj(tag, keep=False):
    o = Obj(tag)
    if keep:
        kept[tag] = o
    return o


def make_many(tags, shape):
    objs = [Obj(t) for t in tags]
    if shape == 'dict':
        return {'k%d' % i: o for i, o in enumerate(objs)}
    if shape == 'tuple':
        return tuple(objs)
    if shape == 'deep':
        return [{'v': [o, 1]} for o in objs]
    return objs


def get_kept(tag):
    return kept.get(tag)


def unkeep(tag):
    kept.pop(tag, None)


def echo(x):
    return x


def who_of_all(x):
    return [x[0].who(), x[1]['k'].who(), x[2][0].who(), x[2][1][0].who()]


def who_of(x):
    return x.who()


def put_stash(name, x):
    stash[name] = x


def get_stash(name):
    return stash[name]


def use_stash(name):
    return stash[name].who(_timeout=30.0)


def collect_garbage():
    _env.collect_garbage()     # noqa: F821


def close_this_server(dt=0):
    """Handler that closes the very server that is executing it."""
    import teleprox
    if dt:
        time.sleep(dt)
    srv = teleprox.RPCServer.get_server()
    srv.close()
    return srv.running()


def write(stream, text):
    import sys
    getattr(sys, stream).write(text)


def say(stream, how, data):
    """Write bytes to stdout/stderr, as text or directly."""
    import os
    import sys
    data = data.encode('latin-1')
    if how == 'text':
        getattr(sys, stream).write(data.decode('utf-8'))
    elif how == 'print':
        print(data.decode('utf-8'), file=getattr(sys, stream))
    elif how == 'buffer':
        getattr(sys, stream).buffer.write(data)
    else:
        fd = 1 if stream == 'stdout' else 2
        while data:
            data = data[os.write(fd, data):]


def say_thread(stream, how, items, dt):
    """The same from another thread."""
    import threading
    import time

    def run():
        for d in items:
            say(stream, how, d)
            time.sleep(dt)
    threading.Thread(target=run, daemon=dt > 0).start()


def say_and(stream, how, data, then):
    import os
    import sys
    say(stream, how, data)
    if then == 'exit':
        os._exit(5)
    elif then == 'sysexit':
        sys.exit(3)
    elif then == 'raise':
        raise ValueError('as planned')


class Ticker:
    """Callback for timers."""

    def __init__(self, tid, dur, fail_at):
        self.tid, self.dur, self.fail_at = tid, dur, fail_at
        self.n = 0

    def __call__(self):
        self.n += 1
        n = self.n
        _k.record('tick', tm=self.tid, n=n)
        if self.dur:
            time.sleep(self.dur)
        fail = n == self.fail_at
        _k.record('tick_end', tm=self.tid, n=n, failed=fail)
        if fail:
            raise CustomError('tick')


# ---- trees of processes that log -----------------------------------------------------
def log_here(who, name, tag, op):
    """Create the log record `tag` in this process, in one of its threads."""
    import logging
    from teleprox.log import remote
    logbase = world.ctx['logbase']
    root = logging.getLogger()
    for n, v in logbase.LEVELS.items():
        if v in (5, 25, 60):
            logging.addLevelName(v, n)
    lg = logging.getLogger(op['name'])
    lv = 30 if op['how'] == 'die' else logbase.LEVELS[op['level']]
    if op['how'] == 'die':
        lg = root
    info = {'who': who, 'tag': tag, 'lv': lv, 'on': lg.isEnabledFor(lv), 'name': lg.name, 'pid': _proc.pid, 'pname': name,
            'what': op['how'] if op['how'] == 'die' else op['kind']}

    def emit(tname):
        t0 = _k.now
        text = logbase.emit(_proc, lg, lv, op['kind'], tag)
        _k.record('log', text=text, tname=tname, tid=threading.get_ident(), t0=t0, **info)

    def body():
        if op['how'] == 'named':
            remote.set_thread_name('N' + tag)
        if op['how'] != 'die':
            emit('N' + tag if op['how'] == 'named' else 's' + tag)
            return
        _k.record('log', text=logbase.MARK % tag, tname='s' + tag, tid=threading.get_ident(), t0=_k.now, **info)
        logbase.fail(tag)
    if op['how'] == 'main':
        emit('main_thread')
        return
    t = threading.Thread(target=body, name='s' + tag)
    t.start()
    t.join()


def collect(who):
    """Note what the root logger of this process handles."""
    import logging
    logbase = world.ctx['logbase']

    class H(logging.Handler):
        def emit(self, rec):
            text = rec.getMessage()
            tag = logbase.tag_of(text)
            if tag is not None:
                _k.record('got', at=who, tag=tag, text=text,
                          f={a: getattr(rec, a, '(missing)') for a in logbase.FIELDS})
    logging.getLogger().addHandler(H())


def grow(by, node):
    """Start a process, let it log and start others, and end it."""
    import teleprox
    import logging
    lib = world.ctx['lib']
    o = node['opts']
    kw = {}
    for a in ('name', 'daemon', 'qt', 'shell', 'serializer'):
        if o.get(a) is not None:
            kw[a] = o[a]
    if o['level'] is not None:
        kw['log_level'] = o['level']
    if o['log'] is not None:
        kw['log_addr'] = world.ctx['log_addrs'][o['log']]
        if o['bytes']:
            kw['log_addr'] = kw['log_addr'].encode()
    who = node['id']
    inherit = logging.getLogger('teleprox').getEffectiveLevel()
    r = lib.guarded(world, teleprox.start_process, **kw)
    if r[0] != 'ok':
        _k.record('grow_failed', who=who, err=list(r[1:3]))
        return
    pr = r[1]
    _k.record('grown', who=who, by=by, name=pr.name, pid=pr.pid, inherit=inherit)
    try:
        u = pr.client._import('simuser')
        if node['serve']:
            u.serve(who)
        if node['tplevel'] is not None:
            pr.client._import('logging').getLogger('teleprox').setLevel(node['tplevel'])
        for i, op in enumerate(node['ops']):
            u.log_here(who, pr.name, '%s.%d' % (who, i), op, _sync='off' if op['off'] else 'sync', _timeout=20.0)
        for sub in node['kids']:
            u.grow(who, sub, _timeout=150.0)
        time.sleep(node['sleep'])
        if node['last']:
            u.log_here(who, pr.name, who + '.999', node['last'], _sync='off')
        if node['end'] == 'stop':
            pr.stop()
        elif node['end'] == 'close':
            pr.client.close_server()
    except lib.HarnessError:
        raise
    except Exception as e:
        _k.record('grow_failed', who=who, err=[type(e).__name__, str(e)[-400:]])
    if node['end'] == 'close' and not o['daemon']:
        pr.wait()


def serve(who):
    from teleprox.log import remote
    collect(who)
    remote.start_log_server()
