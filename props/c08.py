"""Connections and servers belong to one thread each; a failed attempt leaves nothing behind."""
from dst import lib
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 2500, 'thorough': 60000}
ANOMALIES = {'socket-shared', 'connection-moved'}
RULE = 'programs of 1-3 processes (possibly with identical host, process and thread names) whose threads come and go, get, ' \
       'create, close and share connections to 1-3 servers and run servers of their own, while servers start late, hang, ' \
       'close, die and come back; non-trivial: two threads used the same server, or a connection attempt failed'


def gen_ops(rng, ns, depth=0):
    ops = []
    for j in range(rng.randint(3, 10)):
        s = rng.randrange(ns)
        r = rng.random()
        if r < 0.22:
            ops.append({'op': 'get', 's': s})
        elif r < 0.40:
            ops.append({'op': 'new', 's': s, 'ser': rng.choice(['msgpack', 'json']), 'str': rng.random() < 0.3})
        elif r < 0.52:
            ops.append({'op': 'close', 's': s})
        elif r < 0.70:
            ops.append({'op': 'call', 's': s, 'dt': rng.choice([0, 0, 0.003, 0.02])})
        elif r < 0.80:
            ops.append({'op': 'shared', 's': s, 'n': rng.choice([1, 3]), 'copy': rng.random() < 0.5})
        elif r < 0.86:
            ops.append({'op': 'sleep', 'dt': rng.choice([0.001, 0.02, 0.1])})
        elif r < 0.93:
            ops.append({'op': 'server', 'how': rng.choice(['lazy', 'lazy', 'second', 'close'])})
        elif depth < 2:
            ops.append({'op': 'child', 'ops': gen_ops(rng, ns, depth + 1)[:6], 'join': rng.random() < 0.7,
                        'keep': rng.choice([None, None, 'exit', 'close'])})
    return ops


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    ns = rng.choice([1, 1, 2, 3])
    servers = []
    for s in range(ns):
        ev = []
        t = 0.0
        if rng.random() < 0.35:
            t = rng.choice([0.02, 0.1, 0.3])
        ev.append({'start': t})
        if rng.random() < 0.35:
            t += rng.choice([0.05, 0.15, 0.4]) + rng.random() * 0.01
            ev.append({'stop': t, 'how': rng.choice(['kill', 'close', 'hang'])})
            t += rng.choice([0.03, 0.2, 1.5])
            ev.append({'start': t})
        servers.append({'name': 'S%d' % s, 'ev': ev})
    same = rng.random() < 0.4
    procs = []
    for c in range(rng.choice([1, 1, 2, 3])):
        procs.append({'name': 'P%d' % c, 'threads': [{'ops': gen_ops(rng, ns), 'keep': rng.choice([None, None, 'exit', 'close'])} for t in range(rng.choice([1, 2, 3, 4]))],
                      'same': same, 'host': rng.choice(['alpha', 'beta']) if rng.random() < 0.3 else 'alpha'})
    spec = {'cfg': cfg, 'servers': servers, 'procs': procs, 'faults': [],
            'hosts': [{'name': 'alpha', 'ip': '10.0.0.1'}, {'name': 'beta', 'ip': '10.0.0.2'}]}
    if rng.random() < 0.2:
        spec['faults'] = [{'t': rng.choice([0.05, 0.1, 0.2]), 'kind': 'stall', 'dur': rng.choice([0.02, 0.3]),
                           'proc': rng.choice([p['name'] for p in procs])}]
    return spec


def describe(spec):
    return {'servers': len(spec['servers']), 'procs': len(spec['procs'])}


# ---- programs -----------------------------------------------------------------------
def server_main(p, spec, s, gen_no):
    world, k = p.world, p.k
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    time = p.env.import_('time')
    addr = world.ctx['ports'][s['name']]
    for i in range(200):
        try:
            srv = tp.RPCServer(addr)
            break
        except Exception:
            time.sleep(0.02)
    srv['user'] = user
    srv['pid'] = p.pid
    k.record('up', s=s['name'], pid=p.pid)
    world.ctx['up'].setdefault(s['name'], []).append(p)
    srv.run_forever()


class Thread:
    def __init__(self, p, spec, pr, name, ops, shared, keep):
        self.keep = keep
        self.p, self.k, self.world, self.spec, self.pr = p, p.k, p.world, spec, pr
        self.name, self.ops, self.shared = name, ops, shared
        self.tp = p.env.import_('teleprox')
        self.th = p.env.import_('threading')
        self.time = p.env.import_('time')
        self.n = 0
        self.own = None
        self.kids = []

    def rec(self, kind, **kw):
        self.k.record(kind, who=self.name, **kw)

    def addr(self, s):
        return self.world.ctx['ports'][self.spec['servers'][s]['name']].encode()

    @property
    def model(self):
        # one entry for each (thread, server); a new thread may have the ident of one that ended, but nothing else
        return self.world.ctx['model'].setdefault((self.p.pid, self.th.current_thread()), {})

    def bad(self, msg):
        self.rec('bad', msg=msg)

    def alive(self, c):
        return not c.closed() if hasattr(c, 'closed') else True

    def run(self):
        if self.pr['same']:
            self.p.env.import_('teleprox.log').set_thread_name('worker')
        for o in self.ops:
            getattr(self, 'op_' + o['op'])(o)
        if self.own is not None and self.keep:
            # (the thread ends without closing its server)
            self.world.ctx['left'].setdefault(self.p.pid, []).append((self.keep, self.own))
        elif self.own is not None:
            self.close_own()
        # in the end everything is reachable from here
        self.rec('final')
        for s in range(len(self.spec['servers'])):
            self.finally_works(s)
        for t in self.kids:
            t.join()

    def finally_works(self, s):
        name = self.spec['servers'][s]['name']
        self.world.mail.wait(lambda: self.world.mail.box.get('final:' + name), 30.0)
        t0 = self.k.now
        r = None
        for i in range(12):
            def f():
                c = self.tp.RPCClient.get_client(self.addr(s))
                self.model[s] = c
                c.disconnected()
                return c['pid']
            r = lib.guarded(self.world, f)
            if r[0] == 'ok':
                break
            self.time.sleep(0.2)
        live = [q.pid for q in self.world.ctx['up'][name] if q.state == 'running']
        self.rec('works', s=name, r=list(r[:3]), live=live, t0=t0)

    # -- operations
    def op_sleep(self, o):
        self.time.sleep(o['dt'])

    def settle(self, s, kind, r, t0, was_gone=False):
        """Compare the client object obtained with what this thread is known to have."""
        m = self.model
        old = m.get(s)
        if r[0] == 'ok':
            c = r[1]
            owner = self.world.ctx['owners'].setdefault(id(c), (c, (self.p.pid, self.th.current_thread())))
            if owner[1] != (self.p.pid, self.th.current_thread()):
                self.bad('%s returned the connection of another thread' % kind)
            if old is not None and old is not c and kind == 'get' and not self.gone(old):
                self.bad('get_client returned a second connection to the same server')
            if old is not None and kind == 'new' and not self.gone(old):
                self.bad('a second connection to the same server was created in one thread')
            m[s] = c
        else:
            if old is not None and not self.gone(old) and kind == 'get':
                self.bad('get_client failed although there is a connection: %s %s' % (r[1], r[2]))
            if kind == 'new' and r[1] == 'KeyError' and (old is None):
                self.bad('creating a connection failed although this thread has none: %s' % r[2])
            elif r[1] == 'KeyError' and kind == 'new':
                if was_gone:
                    self.bad('creating a connection failed although the former one was closed: %s' % r[2])
            elif r[1] not in ('ConnectionRefusedError', 'TimeoutError', 'RuntimeError'):
                self.bad('%s failed with %s %s' % (kind, r[1], r[2]))
            self.rec('conn_failed', s=s, how=kind, err=[r[1], r[2]], t0=t0)

    def gone(self, c):
        """Was this connection given up before?  (only this thread uses it, so that can not change meanwhile)"""
        return id(c) in self.world.ctx['closed'] or c.disconnected()

    def op_get(self, o):
        t0 = self.k.now
        old = self.model.get(o['s'])
        r = lib.guarded(self.world, self.tp.RPCClient.get_client, self.addr(o['s']))
        self.settle(o['s'], 'get', r, t0)

    def op_new(self, o):
        t0 = self.k.now
        a = self.addr(o['s'])
        old = self.model.get(o['s'])
        was_gone = old is not None and self.gone(old)
        r = lib.guarded(self.world, self.tp.RPCClient, a.decode() if o['str'] else a, serializer=o['ser'])
        self.settle(o['s'], 'new', r, t0, was_gone)

    def op_close(self, o):
        c = self.model.pop(o['s'], None)
        if c is None:
            return
        r = lib.guarded(self.world, c.close)
        self.world.ctx['closed'][id(c)] = c
        if r[0] != 'ok':
            self.bad('closing a client failed: %s %s' % r[1:3])

    def op_call(self, o):
        t0 = self.k.now
        s = o['s']
        r = lib.guarded(self.world, self.tp.RPCClient.get_client, self.addr(s))
        self.settle(s, 'get', r, t0)
        if r[0] != 'ok':
            return
        c = r[1]
        self.n += 1
        tag = '%s.%d' % (self.name, self.n)
        t0 = self.k.now

        def f():
            u = c['user']
            return u.work(tag, None, o['dt'], _timeout=20.0)
        r = lib.guarded(self.world, f)
        self.out(s, tag, r, t0)
        if len(self.shared) < 12:
            rr = lib.guarded(self.world, lambda: c['user'])
            if rr[0] == 'ok':
                # (a callable proxy that was used here may be used elsewhere only by copying it)
                w = rr[1].work
                self.n += 1
                tag = '%s.%d' % (self.name, self.n)
                t0 = self.k.now
                self.out(s, tag, lib.guarded(self.world, w, tag, None, 0, _timeout=20.0), t0)
                self.shared.append((s, rr[1], w))

    def out(self, s, tag, r, t0):
        self.rec('out', s=self.spec['servers'][s]['name'], tag=tag, r=list(r[:3]), t0=t0)

    def op_shared(self, o):
        """Use a proxy that was obtained by some thread of this process."""
        mine = [x for x in self.shared if x[0] == o['s']]
        if not mine:
            return
        proxy = mine[-1][1]
        for i in range(o['n']):
            self.n += 1
            tag = '%s.%d' % (self.name, self.n)
            t0 = self.k.now
            r = lib.guarded(self.world, lambda: (mine[-1][2]._copy() if o['copy'] else proxy.work)(tag, None, 0, _timeout=20.0))
            self.out(o['s'], tag, r, t0)
            r = lib.guarded(self.world, self.tp.RPCClient.get_client, self.addr(o['s']))
            if r[0] == 'ok':
                owner = self.world.ctx['owners'].setdefault(id(r[1]), (r[1], (self.p.pid, self.th.current_thread())))
                if owner[1] != (self.p.pid, self.th.current_thread()):
                    self.bad('a proxy used in this thread left the connection of another thread here')
                old = self.model.get(o['s'])
                if old is not None and old is not r[1] and not self.gone(old):
                    self.bad('using a proxy replaced the connection of this thread')
                self.model[o['s']] = r[1]

    def op_server(self, o):
        S = self.tp.RPCServer
        cur = S.get_server()
        if cur is not self.own:
            self.bad('get_server() returned %r instead of this thread\'s server %r' % (cur, self.own))
        if o['how'] == 'lazy' and self.own is None:
            srv = S()
            r = lib.guarded(self.world, srv.run_lazy)
            if r[0] != 'ok':
                self.bad('a server could not be started in a thread without server: %s %s' % r[1:3])
            else:
                self.own = srv
                srv['who'] = self.name
        elif o['how'] == 'second' and self.own is not None:
            srv = S()
            r = lib.guarded(self.world, srv.run_lazy)
            if r[0] == 'ok':
                self.bad('a second server was accepted in this thread')
            r = lib.guarded(self.world, srv.close)
            if r[0] != 'ok':
                self.bad('closing a server that was refused failed: %s %s' % r[1:3])
        elif o['how'] == 'close' and self.own is not None:
            self.close_own()
            return
        if S.get_server() is not self.own:
            self.bad('this thread\'s server is not %r but %r' % (self.own, S.get_server()))
        if self.own is not None:
            r = lib.guarded(self.world, lambda: S.local_client()['who'])
            if r[:2] != ('ok', self.name):
                self.bad('the local server of this thread gave %r' % (r[:3],))

    def close_own(self):
        r = lib.guarded(self.world, self.own.close)
        if r[0] != 'ok' or self.own.running():
            self.bad('closing the local server failed: %r' % (r[:3],))
        self.own = None
        if self.tp.RPCServer.get_server() is not None:
            self.bad('a closed server is still this thread\'s server')

    def op_child(self, o):
        name = '%s/%d' % (self.name, len(self.kids))
        t = self.th.Thread(target=thread_main, args=(self.p, self.spec, self.pr, name, o['ops'], self.shared, o.get('keep')))
        t.start()
        if o['join']:
            t.join()
        self.kids.append(t)


def thread_main(p, spec, pr, name, ops, shared, keep):
    world, k = p.world, p.k
    try:
        Thread(p, spec, pr, name, ops, shared, keep).run()
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who=name, err=repr(e)[:300], tb=lib.tb())
    finally:
        world.mail.incr('done')


def proc_main(p, spec, pr):
    p.env.import_('teleprox')
    if pr['same']:
        log = p.env.import_('teleprox.log')
        log.set_host_name('host')
        log.set_process_name('proc')
    th = p.env.import_('threading')
    shared = []
    ts = [th.Thread(target=thread_main, args=(p, spec, pr, '%s.%d' % (pr['name'], i), t['ops'], shared, t.get('keep')))
          for i, t in enumerate(pr['threads'])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for how, srv in p.world.ctx['left'].get(p.pid, ()):
        if how == 'close':
            t0 = p.k.now
            r = lib.guarded(p.world, srv.close)
            p.k.record('left_closed', who=pr['name'], r=list(r[:3]), runs=srv.running(), t0=t0)
    p.k.record('leaving', pid=p.pid)


def setup(world, spec):
    lib.setup_common(world, spec)
    k = world.k
    world.ctx.update(ports={}, up={}, model={}, owners={}, closed={}, hung=[], left={})
    h = world.hosts[0]
    for i, s in enumerate(spec['servers']):
        world.ctx['ports'][s['name']] = 'tcp://%s:%d' % (h.ip, 7000 + i)
        world.ctx['up'][s['name']] = []
        for g, e in enumerate(s['ev']):
            if 'start' in e:
                def start(s=s, g=g, e=e):
                    world.start_user(h, s['name'], lambda p: server_main(p, spec, s, g))
                    if g == len(s['ev']) - 1:
                        k.spawn(None, lambda: final(s), 'final-' + s['name'])
                k.at(int(e['start'] * SEC), start)
            else:
                k.at(int(e['stop'] * SEC), stop, world, spec, s, e)

    def final(s):
        end = k.now + 10 * SEC
        n = sum('start' in e for e in s['ev'])
        while not (len(world.ctx['up'][s['name']]) == n and world.ctx['up'][s['name']][-1].state == 'running') and k.now < end:
            k.park(k.now + 5 * MS, on='sleep')
        world.mail.put('final:' + s['name'])
    n = sum(len(p['threads']) for p in spec['procs'])
    for pr in spec['procs']:
        world.start_user(lib.host(world, pr['host']), pr['name'], lambda p, pr=pr: proc_main(p, spec, pr))

    def coordinator():
        for pr in spec['procs']:
            q = next(x for x in world.all_procs if x.name == pr['name'])
            while q.state == 'running':
                k.park(k.now + 20 * MS, on='sleep')
        k.finish('done')
    k.spawn(None, coordinator, 'coordinator')


def stop(world, spec, s, e):
    k = world.k
    p = lib.find_proc(world, s['name'])
    if p is None:
        return
    k.record('stop', s=s['name'], how=e['how'])
    if e['how'] == 'close':
        def closer(q):
            tp = q.env.import_('teleprox')
            for i in range(10):
                r = lib.guarded(world, lambda: tp.RPCClient.get_client(world.ctx['ports'][s['name']]).close_server(timeout=5.0))
                if r[0] == 'ok':
                    break
            k.record('stopped', s=s['name'], r=list(r[:3]))
            if r[0] != 'ok':
                p.die(-9, killed=True)
        world.start_user(world.hosts[0], 'K', closer)
    elif e['how'] == 'hang':
        # accepts connections but answers nothing, then dies
        p.stall(int(0.2 * SEC))
        k.at(k.now + int(0.02 * SEC), lambda: p.state == 'running' and (k.fault('process_kill'), p.die(-9, killed=True)))
    else:
        k.fault('process_kill')
        p.die(-9, killed=True)


# ---- oracle ---------------------------------------------------------------------------
def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    stopped = {s['name'] for s in spec['servers'] if len(s['ev']) > 1}
    execs = {}
    for h in k.history:
        if h['k'] == 'exec':
            execs[h['tag']] = execs.get(h['tag'], 0) + 1
    for h in k.history:
        if h['k'] == 'bad':
            v('registry', '%s: %s' % (h['who'], h['msg']))
        elif h['k'] == 'left_closed':
            if h['r'][0] != 'ok' or h['runs']:
                v('left-server', '%s: closing the server of a thread that ended failed: %r' % (h['who'], h['r']))
        elif h['k'] == 'atexit_exception':
            v('left-server', 'process %d failed at exit: %s' % (h['pid'], h['err']))
        elif h['k'] == 'leaving':
            p = next(x for x in world.all_procs if x.pid == h['pid'])
            if p.exited_at is not None and (p.exited_at - h['t'] - lib.stalls_between(world, h['t'], p.exited_at)) > 0.7 * SEC:
                v('left-server', '%s took %.2f s to exit' % (p.name, (p.exited_at - h['t']) / SEC))
        elif h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'works':
            if h['r'][0] != 'ok' or h['r'][1] not in h['live']:
                v('not-reachable', '%s cannot use server %s although it is up: %r' % (h['who'], h['s'], h['r']))
        elif h['k'] == 'out':
            r = h['r']
            if r[0] == 'ok':
                if r[1] != [h['tag'], None] or execs.get(h['tag']) != 1:
                    v('wrong-outcome', '%s got %r (executed %r times)' % (h['tag'], r[1], execs.get(h['tag'])))
            elif h['s'] not in stopped:
                late = [s for s in spec['servers'] if s['name'] == h['s']][0]['ev'][0]['start'] > 0
                if not (r[1] in ('ConnectionRefusedError', 'TimeoutError') and (late or 'establish' in r[2])):
                    v('call-failed', '%s failed: %r' % (h['tag'], r))
    for p in world.all_procs:
        if p.name[0] == 'P' and p.state != 'running' and p.exit_code != 0:
            v('client-crashed', '%s exited with %r: %r' % (p.name, p.exit_code, p.excepthook_calls[-2:]))
    return V


def nontrivial(world, spec):
    H = world.k.history
    if any(h['k'] == 'conn_failed' for h in H):
        return True
    seen = {}
    for h in H:
        if h['k'] == 'out':
            seen.setdefault(h['s'], set()).add(h['who'])
    return any(len(x) > 1 for x in seen.values())
