"""Timers: spacing, limits, no overlap, stop and restart, slow and failing callbacks, closed servers, clock jumps."""
from dst import lib
from dst.kernel import SEC, MS, US, HarnessError

RUNS = {'quick': 2500, 'thorough': 80000}
ANOMALIES = {'socket-shared'}
RULE = 'timers with local callables, proxies, own and remote servers; their callbacks are quick, slower than the interval, or ' \
       'fail; generated programs start, stop and restart them from one or two threads while clocks jump, processes stall and ' \
       'the server closes; non-trivial: some timer made 3 calls'


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40 * MS:
        cfg['net_delays'] = [200 * US, 5 * MS]
    cfg['max_lines'] = 3000000
    hosts = [{'name': 'alpha', 'ip': '10.0.0.1', 'drift': rng.choice([0, 0, 50])},
             {'name': 'beta', 'ip': '10.0.0.2'}]
    timers = []
    for t in range(rng.choice([1, 1, 2, 3])):
        iv = rng.choice([0.0, 0.01, 0.05, 0.05, 0.2, 0.2, 1.0, 1.0])
        lim = rng.choice([None, None, 1, 2, 3, 5, 10])
        dur = rng.choice([0, 0, 0, 0.001, iv / 2, iv, iv * 1.5, iv * 3])
        if iv == 0:
            dur = 0.01
        kind = rng.choice(['local', 'local', 'local', 'proxy', 'proxy', 'server', 'own'])
        if kind != 'local':
            dur = min(dur, 0.15)    # (no connection is made to a server that is busy for a second)
        ops = [{'op': 'start'}] if rng.random() < 0.9 else []
        for _ in range(rng.randint(1, 7)):
            r = rng.random()
            if r < 0.25:
                ops.append({'op': 'stop'})
            elif r < 0.5:
                ops.append({'op': 'start'})
            elif r < 0.65:
                ops.append({'op': 'running'})
            else:
                ops.append({'op': 'sleep', 'dt': rng.choice([0, 0.001, 0.02, iv, iv * 0.999, iv * 2.5, iv * 7, 0.3])})
        timers.append({'id': 'T%d' % t, 'kind': kind,
                       'interval': iv, 'limit': lim, 'dur': round(dur, 4), 'ops': ops, 'init_start': rng.random() < 0.5,
                       'fail_at': rng.choice([None] * 5 + [1, 2, 4]),
                       'second': [{'op': rng.choice(['stop', 'start', 'sleep', 'running']), 'dt': rng.choice([0.001, 0.03, iv])}
                                  for _ in range(rng.randint(1, 4))] if rng.random() < 0.2 else None})
    shared = [t for t in timers if t['kind'] in ('proxy', 'server')]
    if len(shared) > 1:
        # do not overload their server
        for t in shared:
            t['dur'] = min(t['dur'], 0.01)
            t['interval'] = max(t['interval'], 0.05)
    spec = {'cfg': cfg, 'hosts': hosts, 'timers': timers, 'faults': [], 'close': None, 'server_host': rng.choice(['alpha', 'beta'])}
    r = rng.random()
    if r < 0.15:
        spec['close'] = {'t': rng.choice([0.02, 0.3, 1.5]), 'how': rng.choice(['client', 'kill', 'exit'])}
    t = 0.0
    for _ in range(rng.choice([0, 0, 1, 2])):
        t += rng.choice([0.02, 0.1, 0.5, 1.0])
        kind = rng.choice(['jump', 'jump', 'stall'])
        if kind == 'jump':
            spec['faults'].append({'t': round(t, 3), 'kind': 'jump', 'host': rng.choice(['alpha', 'beta']),
                                   'by': rng.choice([-3600, -5, -0.5, 0.5, 5, 3600, 86400 * 365])})
        else:
            spec['faults'].append({'t': round(t, 3), 'kind': 'stall', 'proc': rng.choice(['S', 'P']),
                                   'dur': rng.choice([0.02, 0.3, 1.0])})
    return spec


def describe(spec):
    return {'timers': [{a: t[a] for a in ('kind', 'interval', 'limit', 'dur')} for t in spec['timers']],
            'close': spec['close'], 'faults': spec['faults']}


def server_main(p, spec):
    world = p.world
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    srv = tp.RPCServer('tcp://%s:*' % p.host.ip)
    srv['user'] = user
    world.mail.put('addr', srv.address)
    if spec['close'] and spec['close']['how'] == 'exit':
        srv.run_in_thread()
        world.mail.get('exit_server')
        return
    srv.run_forever()


class Driver:
    def __init__(self, p, spec, t):
        self.p, self.spec, self.t = p, spec, t
        self.k, self.world = p.k, p.world
        self.id = t['id']

    def rec(self, kind, **kw):
        return self.k.record(kind, tm=self.id, **kw)

    def make(self):
        t, p = self.t, self.p
        tp = p.env.import_('teleprox')
        user = p.env.import_('simuser')
        Timer = p.env.import_('teleprox.timer').Timer
        kw = {'limit': t['limit'], 'start': t['init_start']}
        args = (self.id, t['dur'], t['fail_at'])
        if t['kind'] in ('proxy', 'server'):
            client = tp.RPCClient.get_client(self.world.mail.get('addr'))
            cb = client['user'].Ticker(*args)
        else:
            cb = user.Ticker(*args)
        t0 = self.k.now
        if t['kind'] == 'server':
            tm = client['self'].start_timer(cb, t['interval'], **kw)
        elif t['kind'] == 'own':
            tm = self.own.start_timer(cb, t['interval'], **kw)
        else:
            tm = Timer(cb, t['interval'], **kw)
        if t['init_start']:
            self.rec('start', t0=t0, ok=True, second=False)
        return tm

    def run(self):
        try:
            if self.t['kind'] == 'own':
                tp = self.p.env.import_('teleprox')
                self.own = tp.RPCServer()
                self.own.run_in_thread()
            self.tm = self.make()
        except HarnessError:
            raise
        except Exception as e:
            self.rec('make_failed', err=repr(e))
            return
        x = None
        if self.t['second']:
            x = self.p.env.import_('threading').Thread(target=self.second, daemon=True)
            x.start()
        for op in self.t['ops']:
            self.step(op, self.tm)
        if x is not None:
            x.join()
        # let it come to its end
        t = self.t
        n = t['limit'] or 3
        self.p.env.import_('time').sleep((n + 2) * max(t['interval'], t['dur']) + 0.7)
        self.step({'op': 'running', 'final': True}, self.tm)
        self.step({'op': 'stop'}, self.tm)
        self.step({'op': 'sleep', 'dt': 2 * max(t['interval'], t['dur']) + 0.2}, self.tm)

    def second(self):
        tm = self.tm
        if self.t['kind'] == 'server':
            tm = tm._copy()
        for op in self.t['second']:
            self.step(op, tm, True)

    def step(self, op, tm, second=False):
        k = self.k
        t0 = k.now
        o = op['op']
        if o == 'sleep':
            self.p.env.import_('time').sleep(op['dt'])
        elif o == 'running':
            if self.t['kind'] == 'server':
                r = lib.guarded(self.world, lambda: tm.running._get_value())
            else:
                r = lib.guarded(self.world, lambda: tm.running)
            self.rec('running', t0=t0, r=list(r[:3]), final=op.get('final', False))
        else:
            r = lib.guarded(self.world, getattr(tm, o))
            self.rec(o, t0=t0, ok=r[0] == 'ok', err=list(r[1:3]) if r[0] != 'ok' else None, second=second)


def program_main(p, spec):
    world, k = p.world, p.k
    th = p.env.import_('threading')
    world.mail.get('addr')
    ts = []
    for t in spec['timers']:
        x = th.Thread(target=Driver(p, spec, t).run, daemon=True)
        x.start()
        ts.append(x)
    for x in ts:
        x.join()
    k.record('main_returns')


def setup(world, spec):
    lib.setup_common(world, spec)
    k = world.k
    world.start_user(lib.host(world, spec['server_host']), 'S', lambda p: server_main(p, spec))
    world.start_user(lib.host(world, 'alpha'), 'P', lambda p: program_main(p, spec))
    c = spec['close']

    def closer_main(p):
        tp = p.env.import_('teleprox')
        addr = world.mail.get('addr')
        p.env.import_('time').sleep(c['t'])
        k.record('closing')
        lib.guarded(world, lambda: tp.RPCClient(addr).close_server())
    if c:
        if c['how'] == 'client':
            world.start_user(lib.host(world, 'alpha'), 'K', closer_main)
        else:
            def kill():
                k.record('closing')
                if c['how'] == 'exit':
                    world.mail.put('exit_server')
                else:
                    lib.apply_fault(world, {'kind': 'kill', 'proc': 'S'})
            k.at(int((c['t'] + 0.05) * SEC), kill)

    def coordinator():
        while not any(h['k'] == 'main_returns' for h in k.history):
            k.sleep(100 * MS)
        end = k.now + 15 * SEC
        while k.now < end and any(p.name == 'P' and p.state == 'running' for p in world.all_procs):
            k.sleep(50 * MS)
        k.record('p_state', running=any(p.name == 'P' and p.state == 'running' for p in world.all_procs))
        k.finish('done')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    H = k.history
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.3fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    stall = lambda a, b: lib.stalls_between(world, a, b)
    closing = min((h['t'] for h in H if h['k'] == 'closing'), default=None)
    # (connecting takes a second at most)
    long_stall = any(f['kind'] == 'stall' and f['dur'] > 0.8 for f in spec['faults'])
    cfg = spec['cfg']
    for T in spec['timers']:
        hs = [h for h in H if h.get('tm') == T['id']]
        remote = T['kind'] != 'local'
        tol = 10 * MS + 4 * max(cfg['wake_delays']) + (0 if not remote else 40 * MS + 10 * max(cfg['net_delays']))
        # callbacks of other timers run in the same server, one at a time
        if T['kind'] in ('proxy', 'server'):
            tol += int(sum(t['dur'] for t in spec['timers'] if t['kind'] in ('proxy', 'server') and t is not T) * SEC * 2)
        iv = int(T['interval'] * SEC)
        iv -= iv // 5000        # drift of the clock
        dur = int(T['dur'] * SEC)
        calls = []
        for h in hs:
            if h['k'] == 'tick':
                calls.append([h['t'], None, False])
            elif h['k'] == 'tick_end':
                calls[-1 if len(calls) < 2 or calls[-2][1] is not None else -2][1:] = [h['t'], h['failed']]
        starts = [(h['t0'], h['t']) for h in hs if h['k'] == 'start']
        stops = [(h['t0'], h['t']) for h in hs if h['k'] == 'stop']
        for h in hs:
            if h['k'] in ('start', 'stop') and not h['ok'] and not (T['kind'] == 'server' and (closing is not None or long_stall)):
                v('op-failed', '%s: %s raised %s' % (T['id'], h['k'], h['err']))
            elif h['k'] == 'make_failed' and closing is None and not long_stall:
                v('op-failed', '%s: %s' % (T['id'], h['err']))
        # sessions
        ev = sorted([(s[0], s[1], 'start') for s in starts] + [(s[0], s[1], 'stop') for s in stops])
        concurrent = any(ev[j][1] > ev[j + 1][0] for j in range(len(ev) - 1))
        for j, (t0, t1, kind) in enumerate(ev):
            nxt = ev[j + 1] if j + 1 < len(ev) else None
            end = nxt[0] if nxt else (closing_end(H))
            if concurrent and (any(e is not ev[j] and e[0] <= t1 and e[1] >= t0 for e in ev)):
                continue
            if nxt and any(e is not nxt and e[0] <= nxt[1] and e[1] >= nxt[0] for e in ev):
                continue
            # is a call left over from what was before?
            pend = [c for c in calls if c[0] <= t1 and (c[1] is None or c[1] >= t0 - tol)]
            prev = ev[j - 1] if j else None
            clean = not prev or (not pend and t0 - prev[1] > tol + iv + dur + stall(prev[0] - SEC, t1) and
                                 (prev[2] == 'stop' or over_before(T, calls, ev, j, tol)))
            clean = clean and not concurrent
            mine = [c for c in calls if t1 < c[0] < end]
            quick = [e for e in ev[:j] if e[2] == 'start' and t0 - e[0] < 2 * (tol + iv + dur) + stall(e[0] - SEC, t1)]
            if kind == 'stop':
                if len(mine) > max(1, len(quick)):
                    v('runs-after-stop', '%s: %d calls began between stop() at %.4f and %.4f' % (T['id'], len(mine), t1 / SEC, end / SEC))
                late = [c for c in mine if c[0] - t1 > tol + dur * (1 + (remote and not clean)) + stall(t1 - SEC, c[0])]
                if late:
                    v('runs-after-stop', '%s: call at %.4f after stop() at %.4f' % (T['id'], late[0][0] / SEC, t1 / SEC))
                for h in hs:
                    if h['k'] == 'running' and h['t0'] > t1 and h['t'] < end and h['r'][:2] == ['ok', True]:
                        v('running-flag', '%s: running after stop()' % T['id'])
                continue
            mine = [c for c in calls if t0 < c[0] < end]
            lim = T['limit']
            before = [c for c in calls if c[0] <= t1 and (c[1] is None or c[1] >= t0)]
            slop = 0 if clean else max(1, len(quick))
            if lim is not None and len(mine) > lim + slop:
                v('limit', '%s: %d calls with limit %d after start() at %.4f' % (T['id'], len(mine), lim, t0 / SEC))
            # spacing and overlap (calls left over from before may be among the first)
            n0 = 0 if clean else slop + 1 if remote else slop
            for x in range(n0 + 1, len(mine)):
                a, b = mine[x - 1], mine[x]
                if a[1] is None or b[0] < a[1]:
                    v('overlap', '%s: a call began at %.4f while the one from %.4f was not over' % (T['id'], b[0] / SEC, a[0] / SEC))
                if b[0] - a[0] < iv - tol - stall(a[0] - SEC, b[0]):
                    v('too-soon', '%s: calls at %.4f and %.4f with interval %s' % (T['id'], a[0] / SEC, b[0] / SEC, T['interval']))
                if b[0] - mine[n0][0] < (x - n0) * iv - tol - stall(mine[n0][0] - SEC, b[0]):
                    v('too-many', '%s: %d calls from %.4f to %.4f with interval %s' % (
                        T['id'], x - n0 + 1, mine[n0][0] / SEC, b[0] / SEC, T['interval']))
            failed = any(c[2] for c in mine) or any(c[2] and c[0] <= t1 and c[1] > t0 - tol - stall(c[1] - SEC, t1) for c in calls)
            dead = closing is not None and T['kind'] in ('proxy', 'server') or remote and long_stall
            # progress: while it runs, calls keep coming
            due = t1
            for c in mine + [None]:
                st = stall(due - SEC, end)
                slack = tol + iv // 2000 + (0 if clean else iv) + st + (dur if not clean else 0) + 20 * MS
                if c is None:
                    if failed or dead or (lim is not None and len(mine) >= lim - slop):
                        break
                    if end - due > slack:
                        v('stopped-early', '%s: no call after %.4f although it runs until %.4f (interval %s, limit %s, %d calls)'
                          % (T['id'], due / SEC, end / SEC, T['interval'], lim, len(mine)))
                    break
                if c[0] - due > slack and not (failed or dead):
                    v('too-late', '%s: call at %.4f was due %.4f (interval %s)' % (T['id'], c[0] / SEC, due / SEC, T['interval']))
                due = max(c[0] + int(T['interval'] * SEC), c[1] or c[0])
            # the flag
            failed_before = False
            for h in hs:
                if h['k'] != 'running' or h['r'][0] != 'ok' or not (t1 < h['t0'] and h['t'] < end):
                    continue
                done = [c for c in mine if c[1] is not None and c[1] < h['t0'] - tol - stall(c[1], h['t'])]
                begun = [c for c in mine if c[0] < h['t'] + tol]
                if h['r'][1] is True and lim is not None and len(done) >= lim:
                    v('running-flag', '%s: still running after %d calls with limit %d' % (T['id'], len(done), lim))
                if h['r'][1] is not True and not failed and not dead and (lim is None or len(begun) + slop < lim):
                    v('running-flag', '%s: running is %r after start() and %d calls (limit %s)' % (T['id'], h['r'][1], len(begun), lim))
                if h['final'] and h['r'][1] is True and not dead and closing is None and \
                        not failed_before and (not mine or h['t'] - (mine[-1][1] or h['t']) > 2 * iv + tol + 500 * MS + stall(t1, h['t'])):
                    v('running-flag', '%s: says it runs but makes no calls' % T['id'])
    for h in H:
        if h['k'] == 'p_state' and h['running']:
            v('exit-blocked', 'the program was still running 15 s after its main function returned')
    return V


def over_before(T, calls, ev, j, tol):
    # had the timer made all its calls (or failed) by itself before event j?
    mine = [c for c in calls if c[0] > ev[j - 1][1]]
    mine = [c for c in mine if c[0] < ev[j][0]]
    return any(c[2] for c in mine) or (T['limit'] is not None and len(mine) >= T['limit'])


def closing_end(H):
    return max((h['t'] for h in H if h['k'] == 'main_returns'), default=H[-1]['t'] if H else 0)


def nontrivial(world, spec):
    return any(sum(1 for h in world.k.history if h['k'] == 'tick' and h['tm'] == t['id']) >= 3 for t in spec['timers'])
