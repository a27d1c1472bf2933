"""A Qt server works in the GUI thread, leaves it alone otherwise, and quits as configured."""
from dst import lib
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 2500, 'thorough': 50000}
ANOMALIES = {'socket-shared'}
RULE = 'Qt programs with 1-3 successive servers (same or new address, quit_on_close or not), a 20 ms GUI timer and 1-3 clients ' \
       'whose requests return, fail, take long or wait; servers are closed by clients, by GUI code or by another thread ' \
       'x delays, stalls, clock jumps; non-trivial: a request was executed and the GUI timer ran on after a server was closed'
CLASSES = None
TICK = 20 * MS


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    gens = []
    n = rng.choice([1, 1, 2, 3])
    for g in range(n):
        clients = []
        for c in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for j in range(rng.randint(1, 8)):
                r = rng.random()
                if r < 0.75:
                    ops.append({'op': 'call', 'sync': rng.choice(['sync', 'sync', 'async', 'off']),
                                'dt': rng.choice([0, 0, 0, 0.005, 0.05]), 'mode': rng.choice(['value'] * 4 + ['raise', 'exit', 'box'])})
                elif r < 0.85:
                    ops.append({'op': 'batch', 'n': rng.choice([3, 10]), 'sync': rng.choice(['async', 'off'])})
                else:
                    ops.append({'op': 'sleep', 'dt': rng.choice([0.005, 0.05, 0.2])})
            clients.append({'ops': ops, 'serializer': rng.choice(['msgpack', 'json'])})
        gens.append({'quit': rng.choice([True, False]) if g == n - 1 else False, 'clients': clients,
                     'same_addr': g > 0 and rng.random() < .5,
                     'close': rng.choice(['client', 'client', 'client-off', 'gui', 'gui', 'thread', 'none' if g == n - 1 else 'gui']),
                     'early': rng.random() < .4, 'after': rng.choice([0.0, 0.01, 0.1])})
    faults = []
    if rng.random() < 0.35:
        t = 0.05
        for _ in range(rng.choice([1, 2])):
            t += rng.choice([0.01, 0.05, 0.2])
            faults.append({'t': round(t, 4), 'kind': 'stall', 'dur': rng.choice([0.02, 0.3]), 'proc': rng.choice(['Q', 'C'])}
                          if rng.random() < .6 else {'t': round(t, 4), 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-3600, 3600])})
    return {'cfg': cfg, 'gens': gens, 'faults': faults, 'hook': rng.random() < .6}


def describe(spec):
    return {'gens': [[g['quit'], g['close'], g['same_addr'], len(g['clients'])] for g in spec['gens']]}


def gui_main(p, spec):
    world, k = p.world, p.k
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    qt = p.env.import_('teleprox.qt')
    th = p.env.import_('threading')
    time = p.env.import_('time')
    app = qt.QApplication([])
    k.record('gui', th=k.current.ident)
    if spec['hook']:
        p.env.import_('teleprox.log').log_exceptions()
    st = {'srv': None, 'g': -1, 't': 0, 'over': None, 'asked': False, 'quit': False}

    def start():
        st['g'] += 1
        g = spec['gens'][st['g']]
        addr = st['addr'] if g['same_addr'] else 'tcp://127.0.0.1:*'
        st['srv'] = srv = tp.QtRPCServer(addr, quit_on_close=g['quit'])
        st['addr'] = srv.address
        srv['user'] = user
        srv.run_forever()
        st['over'], st['asked'] = None, False
        k.record('up', g=st['g'])
        world.mail.put('addr:%d' % st['g'], srv.address)

    def close(how):
        t0 = k.now
        r = lib.guarded(world, st['srv'].close)
        k.record('closed_by', g=st['g'], how=how, t0=t0, r=list(r[:3]), gui=how == 'gui')

    def tick():
        g = spec['gens'][st['g']]
        srv = st['srv']
        k.record('ui', g=st['g'], running=srv.running())
        if st['over'] is None and not srv.running():
            st['over'] = k.now
            k.record('seen_closed', g=st['g'])
        due = world.mail.box.get('close:%d' % st['g'])
        if due and not st['asked'] and srv.running():
            if g['close'] == 'gui':
                st['asked'] = True
                close('gui')
            elif g['close'] == 'thread':
                st['asked'] = True
                th.Thread(target=close, args=('thread',), daemon=True).start()
        if st['over'] is not None and k.now > st['over'] + 600 * MS:
            if st['g'] + 1 < len(spec['gens']):
                t0 = k.now
                start()
                k.record('restarted', t0=t0)
            elif k.now > st['over'] + 1200 * MS and not st['quit']:
                st['quit'] = True
                k.record('ask_quit')
                qt.QApplication.quit()
        if g['close'] == 'none' and due and not st['quit']:
            st['quit'] = True
            k.record('ask_quit')
            qt.QApplication.quit()
    try:
        start()
        timer = qt.QTimer()
        timer.timeout.connect(tick)
        timer.start(20)
        app.exec_()
        k.record('exec_returned')
        timer.stop()
    except HarnessError:
        raise
    except BaseException as e:
        k.record('gui_crashed', err=repr(e)[:500], tb=lib.tb())
        raise


def client_main(p, spec):
    world, k = p.world, p.k
    th = p.env.import_('threading')
    tp = p.env.import_('teleprox')
    time = p.env.import_('time')

    def client(g, ci, c):
        who = 'g%dc%d' % (g, ci)
        try:
            addr = world.mail.get('addr:%d' % g)
            cl = None
            for i in range(6):
                try:
                    if cl is not None:
                        cl.close()
                    cl = None
                    try:
                        cl = tp.RPCClient(addr, serializer=c['serializer'])
                    except KeyError:        # left by a dead thread
                        cl = tp.RPCClient.get_client(addr)
                    user = cl['user']
                    break
                except (TimeoutError, RuntimeError, ConnectionError) as e:
                    k.record('no_connection', g=g, who=who, err=repr(e))
                    time.sleep(0.05)
            else:
                return
            futs = []
            for oi, op in enumerate(c['ops']):
                if op['op'] == 'sleep':
                    time.sleep(op['dt'])
                    continue
                for b in range(op.get('n', 1)):
                    tag = '%s.%d.%d' % (who, oi, b)
                    t0 = k.now
                    r = lib.guarded(world, user.work, tag, b, op.get('dt', 0), op.get('mode', 'value'), _sync=op['sync'])
                    if op['sync'] == 'async' and r[0] == 'ok':
                        futs.append((tag, op, r[1], t0))
                    else:
                        summ(g, who, tag, op, r, t0)
            for tag, op, f, t0 in futs:
                summ(g, who, tag, op, lib.guarded(world, f.result, 10.0), t0)
        except HarnessError:
            raise
        except BaseException as e:
            k.record('client_crashed', who=who, err=repr(e)[:600], tb=lib.tb())
        finally:
            if cl is not None:
                lib.guarded(world, cl.close)    # (a client that belongs to a dead thread would meet its heir)
            world.mail.incr('done:%d' % g)

    def summ(g, who, tag, op, r, t0):
        if r[0] == 'ok':
            v = 'proxy' if type(r[1]).__name__ == 'ObjectProxy' else r[1]
            res = ['ok', v]
        else:
            res = ['exc', r[1], getattr(r[3], 'type_str', None), r[2][-200:]]
        k.record('outcome', g=g, who=who, tag=tag, sync=op['sync'], mode=op.get('mode', 'value'), r=res, t0=t0)

    for g, G in enumerate(spec['gens']):
        ts = [th.Thread(target=client, args=(g, ci, c)) for ci, c in enumerate(G['clients'])]
        for t in ts:
            t.start()
        if G['early']:
            if world.mail.get('addr:%d' % g, 20.0) is None:
                return
            time.sleep(0.03 + G['after'])
        else:
            for t in ts:
                t.join()
            time.sleep(G['after'])
        world.mail.put('close:%d' % g)
        k.record('close_due', g=g)
        if G['close'].startswith('client'):
            addr = world.mail.get('addr:%d' % g, 20.0)
            if addr is None:
                return
            for i in range(20):
                t0 = k.now
                # (a client left over from an earlier server at this address has to notice that it is gone)
                r = lib.guarded(world, lambda: tp.RPCClient.get_client(addr).disconnected() and False or tp.RPCClient.get_client(addr))
                if r[0] == 'ok':
                    c = r[1]
                    r = lib.guarded(world, c.close_server, **({'sync': 'off'} if G['close'] == 'client-off' else {}))
                    break
                time.sleep(0.05)
            k.record('closed_by', g=g, how=G['close'], t0=t0, r=[r[0], repr(r[1])] + list(r[2:3]), gui=False)
        for t in ts:
            t.join()


def setup(world, spec):
    lib.setup_common(world, spec)
    h = world.hosts[0]
    q = world.start_user(h, 'Q', lambda p: gui_main(p, spec))
    world.start_user(h, 'C', lambda p: client_main(p, spec))

    def coordinator():
        n = sum(len(g['clients']) for g in spec['gens'])
        while q.state == 'running' and world.k.now < 60 * SEC:
            world.k.sleep(20 * MS)
        world.k.record('q_state', alive=q.state == 'running', code=q.exit_code)
        world.mail.wait(lambda: sum(world.mail.counts.get('done:%d' % g, 0) for g in range(len(spec['gens']))) >= n, 60.0)
        world.k.finish('done')
    world.k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    H = k.history
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('deadlock', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    gui = next((h['th'] for h in H if h['k'] == 'gui'), None)
    q = next(p for p in world.all_procs if p.name == 'Q')

    def stall(a, b, who='Q'):
        tot = 0
        for t, f in world.ctx.get('faults_applied', ()):
            if f['kind'] == 'stall' and f['proc'] == who:
                tot += max(0, min(b, t + int(f['dur'] * SEC)) - max(a, t))
        return tot
    execs = {}
    busy = []
    cur = None
    for h in H:
        if h['k'] in ('exec', 'exec_end') and h['pid'] == q.pid and h['th'] != gui:
            v('wrong-thread', '%s: %s ran in thread %r, the GUI thread is %r' % (h['k'], h['tag'], h['th'], gui))
        if h['k'] == 'exec':
            if cur is not None:
                v('overlap', '%s began while %s was executing' % (h['tag'], cur[0]))
            cur = (h['tag'], h['t'])
            execs[h['tag']] = execs.get(h['tag'], 0) + 1
        elif h['k'] == 'exec_end':
            if cur is not None:
                busy.append((cur[1], h['t']))
            cur = None
        elif h['k'] == 'closed_by' and h['gui']:
            busy.append((h['t0'], h['t']))
        elif h['k'] == 'restarted':
            busy.append((h['t0'], h['t']))
        elif h['k'] in ('gui_crashed', 'client_crashed'):
            v('crashed', '%s %s' % (h['err'], h['tb']))
    # the event loop stays responsive
    ends = [h['t'] for h in H if h['k'] == 'exec_returned']
    ticks = [h['t'] for h in H if h['k'] == 'ui'] + ends[:1]
    closed = [h['t'] for h in H if h['k'] == 'seen_closed']
    for a, b in zip(ticks, ticks[1:]):
        over = sum(max(0, min(b, y) - max(a, x)) for x, y in busy)
        slack = 60 * MS + TICK + max(spec['cfg']['wake_delays']) * 4 + stall(a, b)
        if any(a - 300 * MS - stall(a - SEC, b) < c < b + 300 * MS + stall(a, b + SEC) for c in closed + ends):
            slack += 110 * MS
        if b - a - over > slack:
            v('gui-blocked', 'the event loop did nothing from %.4f to %.4f (%.4f of it used by requests)' % (a / SEC, b / SEC, over / SEC))
    # every request of a server that was not being closed is served
    for g, G in enumerate(spec['gens']):
        t_close = min([h['t'] for h in H if h['k'] in ('close_due', 'ask_quit') and h.get('g', g) == g and
                       (h['k'] == 'close_due' or g == len(spec['gens']) - 1)], default=1 << 62)
        for h in H:
            if h['k'] == 'outcome' and h['g'] == g and (h['t'] < t_close):
                if h['sync'] == 'off':
                    good = h['r'] == ['ok', None]
                elif h['mode'] in ('raise', 'exit'):
                    good = h['r'][0] == 'exc' and h['r'][2] == {'raise': 'CustomError', 'exit': 'SystemExit'}[h['mode']]
                elif h['mode'] == 'box':
                    good = h['r'] == ['ok', 'proxy']
                else:
                    good = h['r'][0] == 'ok' and list(h['r'][1])[:1] == [h['tag']]
                if not good:
                    v('wrong-outcome', '%s %s %s: %r' % (h['tag'], h['sync'], h['mode'], h['r']))
            elif h['k'] == 'no_connection' and h['g'] == g and h['t'] < t_close and not stall(0, h['t']):
                v('no-connection', '%s: %s' % (h['who'], h['err']))
    for t, n in execs.items():
        if n > 1:
            v('executed-twice', t)
    # closing, quitting
    last = len(spec['gens']) - 1
    qs = next((h for h in H if h['k'] == 'q_state'), None)
    asked = [h['t'] for h in H if h['k'] == 'ask_quit']
    for g, G in enumerate(spec['gens']):
        up = [h for h in H if h['k'] == 'up' and h['g'] == g]
        if not up:
            v('no-restart', 'server %d was not started' % g)
            break
        seen = [h['t'] for h in H if h['k'] == 'seen_closed' and h['g'] == g]
        due = [h['t'] for h in H if h['k'] == 'close_due' and h['g'] == g]
        by = [h for h in H if h['k'] == 'closed_by' and h['g'] == g]
        if G['close'] != 'none' and due and not seen and not (G['quit'] and ends):
            v('not-closed', 'server %d still runs (closed by %s)' % (g, G['close']))
        for h in by:
            if h['r'][0] != 'ok' and not stall(h['t0'] - SEC, h['t']) and not stall(h['t0'] - SEC, h['t'], 'C'):
                v('close-failed', '%s: %r' % (h['how'], h['r']))
        if not G['quit'] and g == last and G['close'] != 'none' and ends and (not asked or ends[0] < asked[0]):
            v('quit', 'the application quit when server %d was closed, although quit_on_close is False' % g)
        if G['quit'] and G['close'] != 'none' and asked:
            v('no-quit', 'closing the server did not quit the application')
    if qs is None or qs['alive']:
        v('not-exited', 'the Qt process did not end')
    elif qs['code'] != 0:
        v('exit-code', 'the Qt process ended with %r: %r' % (qs['code'], q.excepthook_calls[-2:]))
    elif ends and qs['t'] - ends[0] - stall(ends[0], qs['t']) > 3 * SEC:
        v('slow-exit', 'the Qt process needed %.2f s to end' % ((qs['t'] - ends[0]) / SEC))
    return V


def nontrivial(world, spec):
    H = world.k.history
    c = [h['t'] for h in H if h['k'] == 'seen_closed']
    return any(h['k'] == 'exec' for h in H) and bool(c) and any(h['k'] == 'ui' and h['t'] > c[0] + 100 * MS for h in H)
