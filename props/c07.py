"""Closing a server: nothing runs afterwards, everybody is told, nothing hangs, the address can be used again."""
from dst import lib
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 2500, 'thorough': 60000}
ANOMALIES = {'socket-shared'}
RULE = 'servers (main thread, worker thread, Qt, restarted at the same address) with 1-4 busy clients are closed at random ' \
       'moments by clients, by other threads, by a request handler or by process exit, up to twice concurrently, ' \
       'with delays and stalls; non-trivial: some client had a request outstanding when the server closed'


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    kind = rng.choice(['main', 'main', 'thread', 'qt'])
    clients = []
    t = 0.05
    for c in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for j in range(rng.randint(2, 14)):
            r = rng.random()
            if r < 0.35:
                ops.append({'op': 'sync', 'dt': rng.choice([0, 0, 0.005, 0.05])})
            elif r < 0.65:
                ops.append({'op': 'async', 'n': rng.choice([1, 2, 5, 12]), 'dt': rng.choice([0, 0, 0.003, 0.02])})
            elif r < 0.75:
                ops.append({'op': 'off', 'n': rng.choice([1, 3, 8])})
            elif r < 0.85:
                ops.append({'op': 'sleep', 'dt': rng.choice([0.001, 0.01, 0.05])})
            elif r < 0.93:
                ops.append({'op': 'ping'})
            else:
                ops.append({'op': 'poll'})
        clients.append({'name': 'C%d' % c, 'ops': ops, 'leave': rng.random() < 0.15,
                        'serializer': rng.choice(['msgpack', 'msgpack', 'json'])})
    closers = []
    hows = ['client', 'client', 'async', 'fresh', 'thread', 'handler', 'off'] + (['exit'] if kind == 'thread' else [])
    for j in range(rng.choice([1, 1, 1, 2])):
        how = rng.choice(hows)
        closers.append({'how': how, 't': round(rng.choice([0.02, 0.05, 0.08, 0.12, 0.2, 0.35]) + rng.random() * 0.01, 4),
                        'client': rng.randrange(len(clients)), 'at': rng.randint(0, 8)})
    restart = rng.random() < 0.5
    if restart and any(c['how'] in ('thread', 'exit') for c in closers):
        closers = closers[:1]       # nobody can tell which of the two servers a second close() would reach
    spec = {'cfg': cfg, 'kind': kind, 'clients': clients, 'closers': closers, 'faults': [], 'threads': rng.random() < 0.3,
            'restart': restart, 'again': rng.choice([0, 1, 1])}
    if rng.random() < 0.3:
        spec['faults'] = [{'t': rng.choice([0.05, 0.1, 0.2]), 'kind': 'stall', 'dur': rng.choice([0.02, 0.3]),
                           'proc': rng.choice(['S'] + [c['name'] for c in clients])}]
    return spec


def describe(spec):
    return {'kind': spec['kind'], 'closers': spec['closers'], 'restart': spec['restart']}


# ---- programs -----------------------------------------------------------------------
def server_main(p, spec):
    world, k = p.world, p.k
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    th = p.env.import_('threading')
    time = p.env.import_('time')
    addr = 'tcp://127.0.0.1:*'
    app = None
    if spec['kind'] == 'qt':
        qt = p.env.import_('teleprox.qt')
        app = qt.QApplication([])
        p.env.import_('teleprox.log').log_exceptions()
    for g in range(2 if spec['restart'] else 1):
        t0 = k.now
        for attempt in range(100):
            try:
                srv = tp.QtRPCServer(addr) if app is not None else tp.RPCServer(addr)
                break
            except Exception as e:
                if attempt == 99:
                    k.record('rebind_failed', err=repr(e), t0=t0)
                    raise
                time.sleep(0.05)
        addr = srv.address
        srv['user'] = user
        srv['gen'] = g
        k.record('up', gen=g, pid=p.pid, t0=t0)
        world.ctx['srv'] = (p, srv)
        if g == 0:
            for j, c in enumerate(spec['closers']):
                if c['how'] in ('thread', 'exit'):
                    th.Thread(target=thread_closer, args=(p, srv, c, j), daemon=True).start()
        world.mail.put('addr', srv.address)
        world.mail.put('gen', g)
        if spec['kind'] == 'qt':
            srv.run_forever()
            app.exec_()
        elif spec['kind'] == 'thread':
            srv.run_in_thread()
            if g == 0 and any(c['how'] == 'exit' for c in spec['closers']):
                t = min(c['t'] for c in spec['closers'] if c['how'] == 'exit')
                while srv.running() and k.now < t * SEC:
                    time.sleep(0.005)
                break       # the interpreter exits while the server is running in its thread
            srv._run_thread.join()
        else:
            srv.run_forever()
        k.record('loop_ended', gen=g, running=srv.running())


def thread_closer(p, srv, c, j):
    k = p.k
    p.env.import_('time').sleep(max(0.0, c['t'] - k.now / SEC))
    if c['how'] == 'exit':
        return
    tp = p.env.import_('teleprox')
    for attempt in range(10):
        # (the server is running its loop as soon as it answers)
        if lib.guarded(p.world, lambda: tp.RPCClient.get_client(srv.address).ping(timeout=5.0))[0] == 'ok':
            break
    t0 = k.now
    k.record('closing')
    for attempt in range(10):
        r = lib.guarded(p.world, srv.close)
        if r[0] == 'ok' or 'establish' not in r[2]:
            break
    k.record('closed', how='thread', who='closer%d' % j, ok=r[0] == 'ok', val=r[1] if r[0] != 'ok' else None,
             err=r[2][-300:] if r[0] != 'ok' else None, t0=t0)
    if r[0] == 'ok':
        k.record('running', val=srv.running())


class Client:
    def __init__(self, p, spec, c, ci):
        self.p, self.k, self.world, self.spec, self.c, self.ci = p, p.k, p.world, spec, c, ci
        self.pend = []
        self.n = 0
        self.gone = False

    def connect(self):
        tp = self.p.env.import_('teleprox')
        addr = self.world.mail.get('addr')
        t0 = self.k.now
        r = lib.guarded(self.world, tp.RPCClient, addr, serializer=self.c['serializer'])
        self.k.record('connect', who=self.c['name'], ok=r[0] == 'ok', err=None if r[0] == 'ok' else [r[1], r[2]], t0=t0)
        if r[0] != 'ok':
            return False
        self.client = r[1]
        r = lib.guarded(self.world, self.client.__getitem__, 'user')
        if r[0] != 'ok':
            self.failed('setup', r, t0)
            return False
        self.user = r[1]
        r = lib.guarded(self.world, self.client.__getitem__, 'gen')
        if r[0] != 'ok':
            self.failed('setup', r, t0)
            return False
        if r[1] != 0:
            return False        # came too late for the server that will be closed
        return True

    def tag(self):
        self.n += 1
        return '%s.%d' % (self.c['name'], self.n)

    def failed(self, tag, r, t0):
        self.k.record('out', who=self.c['name'], tag=tag, r=['exc', r[1], r[2][-300:]], t0=t0)
        if r[1] == 'RuntimeError' and 'disconnect' in r[2] or r[1] == 'ConnectionRefusedError':
            self.gone = True

    def outcome(self, tag, r, t0):
        if r[0] == 'ok':
            self.k.record('out', who=self.c['name'], tag=tag, r=['ok', r[1]], t0=t0)
        else:
            self.failed(tag, r, t0)

    def flush(self):
        for tag, fut in self.pend:
            t0 = self.k.now
            self.outcome(tag, lib.guarded(self.world, fut.result, 30.0), t0)
        self.pend = []

    def run(self):
        if not self.connect():
            return
        time = self.p.env.import_('time')
        for oi, o in enumerate(self.c['ops']):
            for j, cl in enumerate(self.spec['closers']):
                if cl['how'] in ('client', 'async', 'handler', 'off') and cl['client'] == self.ci and cl['at'] == oi:
                    self.close(cl, j)
            if self.gone:
                break
            kind = o['op']
            t0 = self.k.now
            if kind == 'sleep':
                time.sleep(o['dt'])
            elif kind == 'sync':
                t = self.tag()
                self.outcome(t, lib.guarded(self.world, self.user.work, t, None, o['dt'], 'value', _timeout=30.0), t0)
            elif kind == 'ping':
                self.outcome('ping', lib.guarded(self.world, self.client.ping, timeout=30.0), t0)
            elif kind == 'poll':
                r = lib.guarded(self.world, self.client.disconnected)
                self.k.record('polled', who=self.c['name'], r=list(r[:3]))
                if r[0] == 'ok' and r[1]:
                    self.gone = True
            else:
                for x in range(o['n']):
                    t = self.tag()
                    r = lib.guarded(self.world, self.user.work, t, None, o.get('dt', 0), 'value', _sync=kind)
                    if r[0] != 'ok':
                        self.failed(t, r, t0)
                    elif kind == 'async':
                        self.pend.append((t, r[1]))
                if x % 3 == 1:
                    self.flush()
        if self.c['leave'] and not self.gone:
            self.flush()
            r = lib.guarded(self.world, self.client.close)
            self.k.record('left', who=self.c['name'], ok=r[0] == 'ok', err=r[1:3] if r[0] != 'ok' else None)
            return
        self.flush()
        # everybody is told, sooner or later
        t0 = self.k.now
        end = max(self.k.now, int(1.0 * SEC)) + int(10 * SEC)
        told = False
        while self.k.now < end:
            r = lib.guarded(self.world, self.client.disconnected)
            if r[0] != 'ok':
                self.k.record('polled', who=self.c['name'], r=list(r[:3]))
                break
            if r[1]:
                told = True
                break
            time.sleep(0.02)
        self.k.record('told', who=self.c['name'], told=told, t0=t0)
        r = lib.guarded(self.world, self.user.work, self.tag(), None, 0, 'value', _timeout=5.0)
        self.k.record('after', who=self.c['name'], r=list(r[:3]) if r[0] != 'ok' else ['ok', None])
        r = lib.guarded(self.world, self.client.close_server)
        self.k.record('close_again', who=self.c['name'], r=list(r[:3]))
        if self.spec['restart'] and self.spec['again']:
            # a new server at the same address is reachable in the ordinary way
            self.world.mail.wait(lambda: self.world.mail.box.get('gen') == 1, 20.0)
            if self.world.mail.box.get('gen') == 1:
                tp = self.p.env.import_('teleprox')
                t0 = self.k.now
                for i in range(3):
                    r = lib.guarded(self.world, lambda: tp.RPCClient.get_client(self.world.mail.get('addr'))['gen'])
                    if r[0] == 'ok':
                        break
                self.k.record('new', who=self.c['name'], r=list(r[:3]), t0=t0)

    def close(self, cl, j):
        t0 = self.k.now
        if cl['how'] == 'client':
            r = lib.guarded(self.world, self.client.close_server, timeout=20.0)
        elif cl['how'] == 'async':
            r = lib.guarded(self.world, self.client.close_server, sync='async')
            if r[0] == 'ok' and len(self.spec['closers']) == 1 and not hasattr(r[1], 'result'):
                r = ('ok', 'instead of a Future: %r' % (r[1],))
            elif r[0] == 'ok' and r[1] is not True:
                r = lib.guarded(self.world, r[1].result, 20.0)
        elif cl['how'] == 'off':
            r = lib.guarded(self.world, self.client.close_server, sync='off')
        else:
            r = lib.guarded(self.world, self.user.close_this_server, _timeout=30.0)
        self.k.record('closed', how=cl['how'], who=self.c['name'], ok=r[0] == 'ok', val=r[1] if r[0] == 'ok' else r[1],
                      err=r[2][-300:] if r[0] != 'ok' else None, t0=t0)


def fresh_closer(p, spec, cl):
    k, world = p.k, p.world
    tp = p.env.import_('teleprox')
    addr = world.mail.get('addr')
    p.env.import_('time').sleep(max(0.0, cl['t'] - k.now / SEC))
    t0 = k.now
    if world.mail.box.get('gen') != 0:
        return
    for i in range(20):
        r = lib.guarded(world, tp.RPCClient, addr)
        if r[0] == 'ok' or r[1] != 'TimeoutError' or world.mail.box.get('gen') != 0:
            break
    if r[0] != 'ok' or world.mail.box.get('gen') != 0:
        return
    r = lib.guarded(world, r[1].close_server, timeout=20.0)
    k.record('closed', how='fresh', who=p.name, ok=r[0] == 'ok', val=r[1], err=r[2][-300:] if r[0] != 'ok' else None, t0=t0)


def client_main(p, spec, c, ci):
    world, k = p.world, p.k
    try:
        Client(p, spec, c, ci).run()
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who=c['name'], err=repr(e)[:300], tb=lib.tb())
    finally:
        world.mail.incr('client_done')


def setup(world, spec):
    lib.setup_common(world, spec)
    h = world.hosts[0]
    k = world.k
    world.ctx['sproc'] = world.start_user(h, 'S', lambda p: server_main(p, spec))
    if spec.get('threads'):
        def many(p):
            p.env.import_('teleprox')
            th = p.env.import_('threading')
            ts = [th.Thread(target=client_main, args=(p, spec, c, ci)) for ci, c in enumerate(spec['clients'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        world.start_user(h, 'C', many)
    else:
        for ci, c in enumerate(spec['clients']):
            world.start_user(h, c['name'], lambda p, c=c, ci=ci: client_main(p, spec, c, ci))
    for j, cl in enumerate(spec['closers']):
        if cl['how'] == 'fresh':
            world.start_user(h, 'F%d' % j, lambda p, cl=cl: fresh_closer(p, spec, cl))

    def last(p):
        # in case none of the closers got to it: the server must close for the run to end
        tp = p.env.import_('teleprox')
        world.mail.get('addr')
        p.env.import_('time').sleep(max(0.0, 1.0 - k.now / SEC))
        for i in range(50):
            if world.mail.box.get('gen') != 0 or world.ctx['sproc'].state != 'running':
                return
            r = lib.guarded(world, tp.RPCClient, world.mail.get('addr'))
            if r[0] == 'ok':
                if world.mail.box.get('gen') != 0:
                    return
                t0 = k.now
                r = lib.guarded(world, r[1].close_server, timeout=20.0)
                k.record('closed', how='last', who=p.name, ok=r[0] == 'ok', val=r[1], err=r[2][-300:] if r[0] != 'ok' else None,
                         t0=t0)
                return
            if r[1] == 'ConnectionRefusedError':
                return

    def coordinator():
        world.mail.wait_count('client_done', len(spec['clients']))
        if spec['restart'] and world.ctx['sproc'].state == 'running':
            world.mail.wait(lambda: world.mail.box.get('gen') == 1, 20.0)
        else:
            p = world.ctx['sproc']
            end = k.now + 20 * SEC
            while p.state == 'running' and k.now < end:
                k.park(k.now + 10 * MS, on='sleep')
        world.mail.wait(lambda: False, 1.0)
        k.finish('done')
    world.start_user(h, 'L', last)
    k.spawn(None, coordinator, 'coordinator')


# ---- oracle ---------------------------------------------------------------------------
def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    H = k.history
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    S = world.ctx['sproc']
    exits = any(c['how'] == 'exit' for c in spec['closers'])
    up1 = next((h['t'] for h in H if h['k'] == 'up' and h['gen'] == 1), None)
    # the moment by which somebody has been told that the server has closed
    closed = None
    ncl = sum(1 for h in H if h['k'] == 'closed')
    def told(h, r):                 # noqa: E306
        # the client was disconnected, or its place was given up and connecting again failed, or the
        # new server at this address has never heard of the object
        return r[1] == 'RuntimeError' and 'disconnected' in r[2] or \
            (r[1] == 'ConnectionRefusedError' or r[1] == 'TimeoutError' and 'establish' in r[2]) and (exits or any(
                x['k'] == 'closed' and x['t0'] <= h['t'] or x['k'] in ('loop_ended', 'closing') and x['t'] <= h['t'] for x in H)) or \
            up1 is not None and up1 <= h['t'] and r[1] == 'RemoteCallException' and 'KeyError' in r[2]
    for h in H:
        if h['k'] == 'closed':
            known = h['ok'] and h['how'] != 'off' and (h['how'] == 'handler' or h['val'] in (True, None))
            if known and (closed is None or h['t'] < closed):
                closed = h['t']
            if not h['ok']:
                two = ncl > 1 or exits
                if not told(h, [0, h['val'], h['err']]) and not (two and h['val'] in ('RuntimeError', 'ConnectionRefusedError', 'TimeoutError')) and \
                        not (h['val'] == 'RuntimeError' and 'disconnected' in h['err'] and h['how'] == 'handler'):
                    # (the client whose request closes the server from inside is told of the disconnect)
                    v('close-failed', 'close (%s) by %s failed after %.2fs: %s %s' % (
                        h['how'], h['who'], (h['t'] - h['t0']) / SEC, h['val'], h['err']))
            elif h['how'] in ('client', 'async', 'fresh', 'last') and h['val'] is not True:
                v('close-failed', 'close_server returned %r' % h['val'])
            elif h['how'] == 'handler' and h['val'] is not False:
                v('close-failed', 'the server still claimed to be running after close()')
        elif h['k'] == 'connect' and not h['ok']:
            if not told(h, ['exc'] + h['err']) and not (exits and h['err'][0] in ('TimeoutError', 'ConnectionRefusedError')):
                v('not-reachable', '%s could not connect: %r' % (h['who'], h['err']))
        elif h['k'] == 'running' and h['val']:
            v('close-failed', 'running() is still True after close()')
        elif h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'rebind_failed':
            v('address-not-released', 'could not bind the address of the closed server for %.1fs: %s' % (
                (h['t'] - h['t0']) / SEC, h['err']))

    for h in H:
        if h['k'] == 'exec' and closed is not None and h['t'] > closed and h['pid'] == S.pid and (up1 is None or h['t'] < up1):
            v('executed-after-close', '%s was executed at %.4f, after the server had closed at %.4f' % (
                h['tag'], h['t'] / SEC, closed / SEC))
        elif h['k'] == 'exec' and up1 is not None and h['t'] > up1:
            v('executed-by-successor', '%s was executed by the new server at the same address' % h['tag'])
        elif h['k'] == 'out':
            r = h['r']
            if r[0] == 'ok':
                if h['tag'] != 'ping' and r[1] != [h['tag'], None] or h['tag'] == 'ping' and r[1] != 'pong':
                    v('wrong-outcome', '%s got %r' % (h['tag'], r[1]))
            elif not told(h, r):
                if not (h['tag'] == 'setup'):
                    v('not-told', 'request %s of %s ended with %s %s after %.2fs instead of its result or a disconnect error' % (
                        h['tag'], h['who'], r[1], r[2], (h['t'] - h['t0']) / SEC))
            elif closed is None and not any(x['k'] == 'loop_ended' for x in H) and not exits and S.state == 'running' and \
                    not any(x['k'] in ('closed', 'closing') for x in H):
                v('false-disconnect', '%s reported a disconnect although nobody closed the server' % h['tag'])
        elif h['k'] == 'told':
            if not h['told']:
                v('not-told', '%s never learned that the server closed (waited %.1fs)' % (h['who'], (h['t'] - h['t0']) / SEC))
        elif h['k'] == 'polled' and h['r'][0] != 'ok':
            v('not-told', 'disconnected() raised %r' % (h['r'],))
        elif h['k'] == 'after':
            if h['r'][0] == 'ok' or not told(h, h['r']):
                v('not-told', 'a call through a disconnected client gave %r' % (h['r'],))
        elif h['k'] == 'close_again':
            if h['r'] != ['ok', True]:
                v('close-failed', 'close_server() of a server that is already gone gave %r' % (h['r'],))
        elif h['k'] == 'new':
            if h['r'][:2] != ['ok', 1]:
                v('address-not-usable', '%s cannot use the new server at the same address: %r' % (h['who'], h['r']))
        elif h['k'] == 'left' and not h['ok']:
            v('client-crashed', 'RPCClient.close() failed: %r' % (h['err'],))
        elif h['k'] == 'loop_ended' and h['running']:
            v('close-failed', 'the server loop ended but running() is True')
    if k.outcome == 'done' and not spec['restart']:
        if S.state == 'running':
            v('server-lingers', 'the server process did not end after the server closed')
        elif S.exit_code != 0:
            v('server-died', 'the server process ended with %r: %r' % (S.exit_code, S.excepthook_calls[-2:]))
    if k.outcome == 'done' and spec['restart'] and not exits and up1 is None:
        v('server-lingers', 'no new server was started within 20 s of the old one closing')
    return V


def nontrivial(world, spec):
    closed = next((h['t'] for h in world.k.history if h['k'] == 'closed'), None)
    return closed is not None and any(h['k'] == 'out' and h['t0'] < closed < h['t'] for h in world.k.history)
