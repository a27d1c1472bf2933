"""Child processes: start or fail cleanly, end when asked, never stay behind."""
from dst import lib, procbase
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 1500, 'thorough': 40000}
ANOMALIES = ()
RULE = '1-2 parents with 1-3 threads start children with random options (Qt, name, address, stdio, log server, serializer) ' \
       'and stop, kill, close, wait for or leave them, while spawning fails, children crash, hang, stall or are slow at any ' \
       'point of start-up and parents crash; non-trivial: some child was started or failed to start'
ENDS = ['stop', 'stop', 'stop', 'stop2', 'kill', 'kill2', 'close_wait', 'exit_wait', 'leave', 'crash', 'busy_stop', 'none', 'reused']


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    cfg['max_lines'] = 3000000
    cfg['port_reuse'] = False       # a client of a dead server may reach the next one at its address: not claimed
    logs = rng.random() < 0.3
    faulty = rng.random() < 0.6
    parents = []
    n = 0
    for a in range(rng.choice([1, 1, 2])):
        threads = []
        for t in range(rng.choice([1, 1, 2, 3])):
            kids = []
            for c in range(rng.choice([1, 1, 2, 3])):
                ch = procbase.gen_child(rng, n, False, faulty, logs)
                ch['id'] = 'K%d' % n
                ch['end'] = rng.choice(ENDS)
                ch['late'] = rng.random() < 0.3
                n += 1
                kids.append(ch)
            threads.append(kids)
        parents.append({'name': 'P%d' % a, 'threads': threads, 'logs': logs})
    if any(ch['end'] == 'reused' for a in parents for t in a['threads'] for ch in t):
        cfg['pid_reuse'] = True
    return {'cfg': cfg, 'parents': parents, 'faults': []}


def describe(spec):
    return {'children': sum(len(t) for p in spec['parents'] for t in p['threads'])}


def run_thread(p, kids):
    world, k = p.world, p.k
    todo = []
    try:
        for ch in kids:
            s = procbase.Starter(p, ch['id'], ch)
            if ch['gap']:
                s.time.sleep(ch['gap'])
            if s.start():
                s.use()
                if ch['late']:
                    todo.append(s)
                else:
                    end(s)
        for s in todo:
            end(s)
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who=p.name, err=repr(e)[:300], tb=lib.tb())


def end(s):
    """One way to get rid of a child."""
    how = s.plan['end']
    pr = s.proc
    k = s.k
    c = s.child()
    t0 = k.now

    def act(name, fn, *a, **kw):
        t1 = k.now
        r = lib.guarded(s.world, fn, *a, **kw)
        s.rec('ended', how=name, r=list(r[:3]), t0=t1, state=c.state, code=c.exit_code,
              shells=[q.state for q in s.children if q.wrapper])
        return r
    if how in ('stop', 'stop2'):
        act('stop', pr.stop)
        if how == 'stop2':
            act('stop-again', pr.stop)
    elif how in ('kill', 'kill2'):
        act('kill', pr.kill)
        if how == 'kill2':
            act('kill-again', pr.kill)
    elif how == 'close_wait':
        r = act('close', pr.client.close_server, timeout=10)
        act('wait', pr.wait)
        act('stop-again', pr.stop)
    elif how == 'exit_wait':
        lib.guarded(s.world, lambda: pr.client._import('os')._exit(7, _sync='off'))
        act('wait7', pr.wait)
    elif how == 'crash':
        k.fault('child_crash')
        c.die(-9, killed=True)
        act('wait9', pr.wait)
        act('stop-again', pr.stop)
    elif how == 'reused':
        # the ids of what has ended belong to others
        lib.guarded(s.world, lambda: pr.client._import('os')._exit(7, _sync='off'))
        act('wait7', pr.wait)
        gone = [q.pid for q in s.children if q.state == 'reaped']
        over = [False]
        others = [s.world.start_user(s.p.host, 'stranger', lambda p: s.world.mail.wait(lambda: over[0])) for _ in range(4)]
        if any(q.pid in gone for q in others):
            k.fault('pid_reused')
        for x in s.plan.get('again', ['kill', 'stop']):
            act(x + '-again', getattr(pr, x))
        for q in others:
            if q.state != 'running':
                s.rec('shot', pid=q.pid, code=q.exit_code)
        over[0] = True
    elif how == 'busy_stop':
        lib.guarded(s.world, lambda: pr.client._import('simuser').work(s.who + '.busy', None, 1.5, _sync='off'))
        act('stop', pr.stop)
    elif how == 'leave':
        act('poll', pr.poll)
        return
    else:
        return
    act('poll-end', pr.poll)


def parent_main(p, a):
    world, k = p.world, p.k
    p.env.import_('teleprox')
    world.mail.get('taken')
    if a['logs']:
        log = p.env.import_('teleprox.log')
        log.start_log_server()
        world.ctx['log_addr'][p.pid] = log.get_logger_address()
    th = p.env.import_('threading')
    ts = [th.Thread(target=run_thread, args=(p, t)) for t in a['threads'][1:]]
    for t in ts:
        t.start()
    run_thread(p, a['threads'][0])
    for t in ts:
        t.join()
    k.record('parent_done', who=a['name'])


def setup(world, spec):
    procbase.setup(world, spec)
    k = world.k
    ps = [world.start_user(world.hosts[0], a['name'], lambda p, a=a: parent_main(p, a)) for a in spec['parents']]

    def coordinator():
        while any(p.state == 'running' for p in ps):
            k.park(k.now + 20 * MS, on='sleep')
        world.ctx['parents_gone'] = k.now
        # whatever was half started must notice that nobody is there
        end = k.now + 40 * SEC
        while k.now < end and any(q.name[0] == 'p' and q.state == 'running' for q in world.all_procs):
            k.park(k.now + 50 * MS, on='sleep')
        k.finish('done')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    plans = {ch['id']: ch for a in spec['parents'] for t in a['threads'] for ch in t}
    procbase.check_start(world, spec, v, plans)
    pcrash = {h['pid'] for h in k.history if h['k'] == 'fault' and h['what'] == 'parent_crash'}
    for h in k.history:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'shot':
            v('killed-others', 'process %d, which has nothing to do with %s, ended with %r' % (h['pid'], h['who'], h['code']))
        elif h['k'] == 'waited':
            plan = plans[h['who']]
            r = h['r']
            if r[0] == 'ok' and not procbase.crashed(plan):
                v('wrong-status', 'wait() of %s gave %r while it is running' % (h['who'], r[1]))
            elif r[0] != 'ok' and r[1] != 'TimeoutError':
                v('wrong-status', 'wait(timeout) of %s raised %r' % (h['who'], r))
            if (h['t'] - h['t0']) / SEC > h['timeout'] + 3:
                v('wrong-status', 'wait(%g) of %s took %.2f s' % (h['timeout'], h['who'], (h['t'] - h['t0']) / SEC))
        elif h['k'] == 'ended':
            plan = plans[h['who']]
            fl = plan['fault']
            r, how = h['r'], h['how']
            dead = procbase.crashed(plan)
            stalled = fl is not None and fl['kind'] == 'line' and fl['act'] == 'stall' and fl['dur'] > 1
            if r[0] != 'ok':
                if how in ('stop', 'close', 'wait', 'wait7') and (dead or stalled) and \
                        r[1] in ('TimeoutError', 'RuntimeError'):
                    continue
                if how == 'stop' and 'Leftover' in r[2]:
                    continue
                v('end-failed', '%s of %s failed after %.2f s: %r' % (how, h['who'], (h['t'] - h['t0']) / SEC, r))
                continue
            if how in ('stop', 'wait', 'kill', 'wait7', 'wait9'):
                if h['shells'] and how == 'kill':
                    # its shells reap what was killed; only the first of them is ours
                    if h['state'] == 'running' or h['shells'][0] != 'reaped':
                        v('left-behind', 'kill of %s returned while it is %s and its shell %s' % (
                            h['who'], h['state'], h['shells']))
                elif h['state'] != 'reaped':
                    v('left-behind', '%s of %s returned while the process is %s' % (how, h['who'], h['state']))
                if how != 'kill' and any(x != 'reaped' for x in h['shells']):
                    v('left-behind', '%s of %s returned while its shell is %r' % (how, h['who'], h['shells']))
                exp = {'stop': 0, 'wait': 0, 'kill': -9, 'wait7': 7, 'wait9': -9}[how]
                if h['shells'] and r[1] == 137:
                    r = [r[0], -9] + r[2:]      # the status of a shell whose command was killed
                if r[1] != exp and not (how in ('stop', 'kill') and r[1] is None and dead) and not (dead and r[1] == -9):
                    v('wrong-status', '%s of %s returned %r instead of %r' % (how, h['who'], r[1], exp))
            elif how == 'close' and r[1] is not True:
                v('end-failed', 'close_server of %s returned %r' % (h['who'], r[1]))
            elif how == 'poll-end':
                if h['state'] == 'running' and not dead and not stalled:
                    v('left-behind', '%s is still running after it was ended' % h['who'])
                if r[1] != h['code'] and not (h['shells'] and h['code'] == -9 and r[1] == 137):
                    v('wrong-status', 'poll() of %s gave %r, its exit status is %r' % (h['who'], r[1], h['code']))
            elif how == 'poll' and r[1] is not None and not dead:
                v('wrong-status', 'poll() of the running %s gave %r' % (h['who'], r[1]))
    handed = {c: w for w, c, s in world.ctx['handed'] if c is not None}
    for q in world.all_procs:
        st = getattr(q, 'plan', None)
        if st is None:
            continue
        fl = st.plan['fault']
        if q.state == 'running' and not q.wrapper:      # (shells end with what they run)
            if fl and fl['kind'] == 'spawn' and fl['f'] == 'hang' and (st.p.pid in pcrash or q.parent is not st.p):
                continue
            if st.p.pid in pcrash and (q in handed or q.started_at + q.startup_delay < st.p.exited_at):
                continue        # its parent had no chance to shut it down
            v('left-behind', 'process %d of %s is still running %.1f s after its parent ended' % (
                q.pid, st.who, (k.now - world.ctx['parents_gone']) / SEC))
        elif q.exit_code == 1 and not q.wrapper and q not in handed and not fl and st.plan['opts']['address'] != 'taken':
            v('child-died', 'process %d of %s ended with 1: %r' % (q.pid, st.who, q.excepthook_calls[-2:]))
    for p in world.all_procs:
        if p.name[0] == 'P' and p.pid not in pcrash and p.exit_code != 0:
            v('client-crashed', '%s exited with %r: %r' % (p.name, p.exit_code, p.excepthook_calls[-2:]))
    return V


def nontrivial(world, spec):
    return any(h['k'] == 'started' for h in world.k.history)
