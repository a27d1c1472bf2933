"""Daemon processes: independent of whoever started them, until stopped."""
from dst import lib, procbase
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 1500, 'thorough': 40000}
RULE = '1-2 parents with 1-2 threads start daemons (Qt or not) with random options while spawning fails or the new process ' \
       'crashes, hangs, stalls or is slow at any point, then exit, are killed, get ctrl-C or lose their terminal; strangers ' \
       'use and end the daemons; non-trivial: a daemon outlived its parent'
ENDS = ['stop', 'kill', 'stranger', 'stranger_kill', 'keep', 'keep']


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    cfg['max_lines'] = 3000000
    faulty = rng.random() < 0.5
    parents = []
    n = 0
    for a in range(rng.choice([1, 1, 2])):
        threads = []
        for t in range(rng.choice([1, 1, 2])):
            kids = []
            for c in range(rng.choice([1, 1, 2])):
                ch = procbase.gen_child(rng, n, True, faulty, False)
                ch['id'] = 'K%d' % n
                ch['end'] = rng.choice(ENDS)
                n += 1
                kids.append(ch)
            threads.append(kids)
        parents.append({'name': 'P%d' % a, 'threads': threads, 'plain': rng.random() < 0.3,
                        'leave': rng.choice(['exit', 'exit', 'kill', 'hangup', 'ctrlc'])})
    if faulty:
        # requests and signals meant for a process that crashed reach whoever got its port or pid
        cfg['port_reuse'] = cfg['pid_reuse'] = False
    return {'cfg': cfg, 'parents': parents, 'faults': []}


def describe(spec):
    return {'daemons': sum(len(t) for p in spec['parents'] for t in p['threads'])}


def run_thread(p, kids):
    world, k = p.world, p.k
    try:
        for ch in kids:
            s = procbase.Starter(p, ch['id'], ch)
            if ch['gap']:
                s.time.sleep(ch['gap'])
            if s.start():
                c = s.child()
                if c is not None:
                    k.record('nature', who=ch['id'], pid=c.pid, own_session=c.sid != p.sid, own_group=c.pgid != p.pgid,
                             stdio=[c.fds[n].kind if n in c.fds else None for n in (0, 1, 2)])
                s.use()
                t0 = k.now
                if ch['end'] in ('stop', 'kill'):
                    s.rec('ending')
                    r = lib.guarded(world, getattr(s.proc, ch['end']))
                    s.rec('ended', how=ch['end'], r=list(r[:3]), t0=t0, state=c.state if c else None)
                    end_ = k.now + 12 * SEC
                    while c is not None and c.state == 'running' and k.now < end_:
                        s.time.sleep(0.05)
                    s.rec('gone', how=ch['end'], state=c.state if c else None, t0=t0)
                    if ch['end'] == 'kill':
                        r = lib.guarded(world, s.proc.kill)
                        s.rec('ended', how='kill-again', r=list(r[:3]), t0=t0, state=c.state if c else None)
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who=p.name, err=repr(e)[:300], tb=lib.tb())


def parent_main(p, spec, a):
    world, k = p.world, p.k
    p.env.import_('teleprox')
    world.mail.get('taken')
    if a.get('plain'):
        # an ordinary child of the same parent, to see that only daemons survive
        tp = p.env.import_('teleprox')
        r = lib.guarded(world, tp.start_process)
        if r[0] == 'ok':
            world.ctx.setdefault('plain', []).append((a['name'], r[1].pid))
    th = p.env.import_('threading')
    ts = [th.Thread(target=run_thread, args=(p, t)) for t in a['threads'][1:]]
    for t in ts:
        t.start()
    run_thread(p, a['threads'][0])
    for t in ts:
        t.join()
    k.record('leaving', who=a['name'], how=a['leave'])
    if a['leave'] == 'kill':
        k.fault('process_kill')
        p.die(-9, killed=True)
    elif a['leave'] == 'hangup':
        world.hangup(p.sid)
    elif a['leave'] == 'ctrlc':
        k.fault('terminal_interrupt')
        for q in list(world.live()):
            if q.pgid == p.pgid:
                world.kill_pid(q.pid, 2)
    k._reschedule() if k.current.state == 'dead' else None


def stranger_main(p, spec):
    """Uses the daemons after everybody who started them has gone."""
    world, k = p.world, p.k
    tp = p.env.import_('teleprox')
    time = p.env.import_('time')
    world.mail.get('parents_gone')
    for who, c, s in list(world.ctx['handed']):
        plan = s.plan
        if plan['end'] in ('stop', 'kill') or c is None or procbase.crashed(plan):
            continue
        t0 = k.now
        r = None
        for i in range(5):
            def f():
                cl = tp.RPCClient.get_client(s.proc.client.address)
                u = cl._import('simuser')
                u.write('stdout', 'hello from %s\n' % who)
                u.write('stderr', 'hello from %s\n' % who)
                return [cl._import('os').getpid(), u.work(who + '.after', 1)]
            r = lib.guarded(world, f)
            if r[0] == 'ok':
                break
            time.sleep(0.1)
        k.record('after', who=who, r=list(r[:3]), pid=c.pid, state=c.state, t0=t0)
        if r[0] != 'ok':
            continue
        t0 = k.now
        if plan['end'] == 'stranger':
            r = lib.guarded(world, lambda: tp.RPCClient.get_client(s.proc.client.address).close_server(timeout=10))
        elif plan['end'] == 'stranger_kill':
            d = tp.DaemonProcess(tp.RPCClient.get_client(s.proc.client.address), who, plan['opts']['qt'], c.pid)
            r = lib.guarded(world, d.kill)
        else:
            continue
        k.record('ended', who=who, how=plan['end'], r=list(r[:3]), t0=t0, state=c.state)
        end = k.now + 12 * SEC
        while c.state == 'running' and k.now < end:
            time.sleep(0.05)
        k.record('gone', who=who, how=plan['end'], state=c.state, t0=t0)
    world.mail.put('stranger_done')


def setup(world, spec):
    procbase.setup(world, spec)
    k = world.k
    ps = [world.start_user(world.hosts[0], a['name'], lambda p, a=a: parent_main(p, spec, a)) for a in spec['parents']]
    world.start_user(world.hosts[0], 'X', lambda p: stranger_main(p, spec))

    def coordinator():
        while any(p.state == 'running' for p in ps):
            k.park(k.now + 20 * MS, on='sleep')
        world.ctx['parents_gone'] = k.now
        world.mail.wait(lambda: False, 0.2)
        world.mail.put('parents_gone')
        world.mail.get('stranger_done', 200.0)
        if any(ch['fault'] for a in spec['parents'] for t in a['threads'] for ch in t):
            world.mail.wait(lambda: False, 60.0)
        k.finish('done')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    plans = {ch['id']: ch for a in spec['parents'] for t in a['threads'] for ch in t}
    procbase.check_start(world, spec, v, plans)
    pcrash = {h['pid'] for h in k.history if h['k'] == 'fault' and h['what'] == 'parent_crash'}
    ended = set()
    for h in k.history:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'nature':
            if not h['own_session'] or not h['own_group']:
                v('not-detached', 'daemon %s shares the session or process group of its parent' % h['who'])
            if h['stdio'] != ['null'] * 3:
                v('not-detached', 'daemon %s has stdio %r' % (h['who'], h['stdio']))
        elif h['k'] == 'ending':
            ended.add(h['who'])
        elif h['k'] == 'ended':
            plan = plans[h['who']]
            ended.add(h['who'])
            if h['r'][0] != 'ok' and not plan['fault']:
                v('end-failed', '%s of %s failed: %r' % (h['how'], h['who'], h['r']))
        elif h['k'] == 'gone':
            if h['state'] == 'running' and not (plans[h['who']]['fault'] or {}).get('dur'):
                v('left-behind', 'daemon %s is still running %.1f s after %s' % (
                    h['who'], (h['t'] - h['t0']) / SEC, h['how']))
        elif h['k'] == 'after':
            r = h['r']
            if r[0] != 'ok' or r[1] != [h['pid'], [h['who'] + '.after', 1]]:
                if not (plans[h['who']]['fault'] or {}).get('dur'):
                    v('daemon-lost', 'daemon %s (%s) gave %r after its parent had gone' % (h['who'], h['state'], r))
    handed = {c: w for w, c, s in world.ctx['handed'] if c is not None}
    for q in world.all_procs:
        st = getattr(q, 'plan', None)
        if st is None:
            continue
        fl = st.plan['fault']
        if q in handed:
            if q.state != 'running' and handed[q] not in ended and not procbase.crashed(st.plan):
                v('daemon-lost', 'daemon %s died although nobody ended it: %r %r' % (
                    handed[q], q.exit_code, q.excepthook_calls[-2:]))
        elif q.state == 'running':
            if fl and (fl['kind'] == 'spawn' and fl['f'] == 'hang'):
                continue
            if st.p.pid in pcrash and st.p in q.heard:
                continue            # came up; its parent died before it could tell anybody
            v('left-behind', 'process %d of %s, which failed to start, is still running %.1f s later' % (
                q.pid, st.who, (k.now - world.ctx['parents_gone']) / SEC))
        if q.state == 'zombie':
            v('left-behind', 'process %d of %s is a zombie' % (q.pid, st.who))
    for a in spec['parents']:
        p = next(x for x in world.all_procs if x.name == a['name'])
        for n in (1, 2):
            out = b''.join(world.captured.get((p.pid, n), []))
            if b'hello from' in out or b'\nx' in out:
                v('not-detached', 'output of a daemon appeared on the terminal of %s: %r' % (a['name'], out[-200:]))
    return V


def nontrivial(world, spec):
    return any(h['k'] == 'after' for h in world.k.history)
