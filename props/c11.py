"""Forwarded log records: exactly once, in order, complete, correctly attributed, without blocking the program."""
from dst import lib, logbase
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 2500, 'thorough': 60000}
ANOMALIES = {'socket-shared'}
RULE = '1-3 processes on 1-2 hosts whose threads log records of 25 kinds through LogSenders to 1-2 LogServers, while servers ' \
       'stop and restart, senders re-connect and exit, links are slow, cut or reset, processes stall or are killed, and ' \
       'strangers send garbage, threads end with exceptions; non-trivial: records of two threads arrived'
NAMES = ['', 'app', 'app.sub', 'lib']


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng, hwm=rng.random() < 0.3)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    two_hosts = rng.random() < 0.3
    faulty = rng.random() < 0.5
    senders = []
    for a in range(rng.choice([1, 1, 2, 3])):
        threads = []
        for t in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for j in range(rng.randint(1, 12)):
                r = rng.random()
                if r < 0.72:
                    ops.append(logbase.gen_log(rng, NAMES))
                elif r < 0.82:
                    ops.append({'op': 'burst', 'n': rng.choice([3, 8, 20]), 'name': rng.choice(NAMES),
                                'level': rng.choice(sorted(logbase.LEVELS))})
                elif r < 0.9:
                    ops.append({'op': 'sleep', 'dt': rng.choice([0.001, 0.01, 0.1, 0.5])})
                elif r < 0.97:
                    ops.append(dict(logbase.gen_log(rng, NAMES), op='short', named=rng.random() < 0.4, die=rng.random() < 0.5))
                else:
                    ops.append({'op': 'connect', 's': rng.randrange(2)})
            if rng.random() < 0.1:
                # a lot to send right before the end
                ops.append({'op': 'burst', 'n': rng.choice([60, 120]), 'name': 'app', 'level': 'WARNING'})
            threads.append(ops)
        senders.append({'exit_stall': rng.choice([None, [rng.choice([5, 50, 200, 1000, 3000]), rng.choice([0.02, 0.1, 0.5])]]),
                        'name': 'P%d' % a, 'host': rng.randrange(2) if two_hosts else 0, 'threads': threads,
                        'pname': rng.choice([None, 'proc%d' % a, 'same']), 'hname': rng.choice([None, None, 'elsewhere']),
                        'hooks': rng.random() < 0.5, 'named': rng.random() < 0.5, 'level': rng.choice(['DEBUG', 'DEBUG', 'INFO', 'WARNING']),
                        'leave': rng.choice(['idle', 'idle', 'exit', 'exit', 'sysexit', 'raise']),
                        'extra_handler': rng.random() < 0.2, 'how': rng.choice(['global', 'global', 'handler', 'unconnected', 'logger'])})
    spec = {'cfg': cfg, 'senders': senders, 'hosts': [{'name': 'alpha', 'ip': '10.0.0.1'}], 'faults': [],
            'servers': [{'level': rng.choice(['DEBUG', 'NOTSET', 'NOTSET', 'INFO', 'WARNING']),
                         'filter': rng.random() < 0.7, 'slow': rng.choice([0, 0, 0, 0.005]),
                         'boom': rng.random() < 0.3, 'obj': rng.random() < 0.6} for _ in range(2)],
            'restart': None, 'garbage': None}
    if two_hosts:
        spec['hosts'].append({'name': 'beta', 'ip': '10.0.0.2', 'wall': rng.choice([0, 3600, -5]) * SEC})
    if rng.random() < 0.3:
        spec['garbage'] = {'t': rng.choice([0.0, 0.05, 0.2]), 'n': rng.choice([1, 5])}
    if rng.random() < 0.25:
        spec['restart'] = {'t': rng.choice([0.05, 0.2, 0.5]), 's': rng.randrange(2), 'gap': rng.choice([0, 0.2, 2.0]),
                           'wait': rng.random() < 0.8}
    if faulty:
        for j in range(rng.choice([1, 1, 2])):
            r = rng.random()
            t = rng.choice([0.01, 0.05, 0.1, 0.3, 0.6])
            if r < 0.3:
                spec['faults'].append({'t': t, 'kind': 'reset', 'n': rng.randrange(4)})
            elif r < 0.5:
                spec['faults'].append({'t': t, 'kind': 'stall', 'dur': rng.choice([0.05, 0.5, 3]),
                                       'proc': rng.choice(['S'] + [a['name'] for a in senders])})
            elif r < 0.65:
                spec['faults'].append({'t': t, 'kind': 'kill', 'proc': rng.choice(senders)['name']})
            elif r < 0.8 and two_hosts:
                spec['faults'].append({'t': t, 'kind': 'partition', 'a': 'alpha', 'b': 'beta', 'dur': rng.choice([0.1, 1, 4])})
            else:
                spec['faults'].append({'t': t, 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-3600, -1, 1, 86400])})
    return spec


def describe(spec):
    return {'senders': len(spec['senders']), 'threads': sum(len(a['threads']) for a in spec['senders'])}


def addr(spec, n):
    return 'tcp://10.0.0.1:%d' % (7000 + n)


def server_main(p, spec):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    tp = p.env.import_('teleprox')
    log = p.env.import_('teleprox.log')
    remote = p.env.import_('teleprox.log.remote')
    time = p.env.import_('time')
    th = p.env.import_('threading')
    servers = {}
    fields = ('name', 'levelno', 'levelname', 'created', 'process', 'process_name', 'thread', 'thread_name', 'host_name',
              'exc_text', 'stack_info', 'exc_info', 'myextra', 'pathname', 'funcName')

    def make_handler(n, cf):
        class H(logging.Handler):
            def emit(self, rec):
                text = rec.getMessage()
                k.record('got', s=n, tag=logbase.tag_of(text), text=text,
                         f={a: getattr(rec, a, '(missing)') for a in fields})
                if cf['slow']:
                    time.sleep(cf['slow'])
        return H()

    class Boom(logging.Filter):
        def filter(self, rec):
            if 'boom' in rec.getMessage():
                raise RuntimeError('filter failed')
            return True

    def start(n):
        for i in range(200):
            try:
                cf = spec['servers'][n]
                servers[n] = remote.LogServer(logging.getLogger('srv%d' % n) if cf.get('obj', True) else 'srv%d' % n, addr(spec, n),
                                              filter_by_level=spec['servers'][n]['filter'])
                break
            except Exception as e:
                if 'in use' not in str(e):
                    raise
                time.sleep(0.05)
        else:
            k.record('server_error', what='cannot restart server %d: address still in use' % n)
            return
        k.record('server_up', s=n)
        world.mail.put('up%d' % n)
    for n, cf in enumerate(spec['servers']):
        lg = logging.getLogger('srv%d' % n)
        lg.propagate = False
        lg.setLevel(cf['level'])
        lg.addHandler(make_handler(n, cf))
        if cf['boom']:
            lg.addFilter(Boom())
        start(n)
    try:
        if spec['restart']:
            rs = spec['restart']
            time.sleep(rs['t'])
            old = servers[rs['s']]
            k.record('server_stop', s=rs['s'])
            t0 = k.now
            old.stop()
            if rs['wait']:
                old.join(5 + lib.stalls_between(world, t0, t0 + 10 * SEC) / SEC)
                if old.is_alive():
                    k.record('server_error', what='server %d still runs %.1f s after stop()' % (rs['s'], (k.now - t0) / SEC))
                time.sleep(rs['gap'])
            start(rs['s'])
        world.mail.get('senders_done')
        # everything that is still under way arrives
        time.sleep(8.0)
        for n in servers:
            if not servers[n].is_alive():
                k.record('server_error', what='the thread of server %d has died' % n)
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who='S', err=repr(e)[:300], tb=lib.tb())
    world.mail.put('server_done')


def sender_main(p, spec, a):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    p.env.import_('teleprox')
    remote = p.env.import_('teleprox.log.remote')
    time = p.env.import_('time')
    th = p.env.import_('threading')
    world.mail.get('up0')
    world.mail.get('up1')
    root = logging.getLogger()
    for n, v in logbase.LEVELS.items():
        if v in (5, 25, 60):
            logging.addLevelName(v, n)
    root.setLevel(a['level'])
    if a['pname']:
        remote.set_process_name(a['pname'])
    if a['hname']:
        remote.set_host_name(a['hname'])
    if a['extra_handler']:
        class Local(logging.Handler):
            def emit(self, rec):
                rec.exc_text = rec.exc_text or 'formatted locally' if rec.exc_info else rec.exc_text
                rec.msg = rec.msg
        root.addHandler(Local())
    if a['how'] == 'global':
        remote.set_logger_address(addr(spec, 0))
        connect = remote.set_logger_address
    elif a['how'] == 'unconnected':
        snd = remote.LogSender()
        if a['named']:
            time.sleep(0.02)
        snd.connect(addr(spec, 0))
        root.addHandler(snd)
        connect = snd.connect
    else:
        snd = remote.LogSender(addr(spec, 0).encode(), root if a['how'] == 'logger' else '')
        connect = snd.connect
    k.record('connect', who=p.name, s=0, t0=k.now)
    if a['hooks']:
        p.env.import_('teleprox.log').log_exceptions()

    def log(who, me, tag, op, kind, tid, tname):
        lg = logging.getLogger(op['name'])
        lv = logbase.LEVELS[op['level']]
        t0 = k.now
        on = lg.isEnabledFor(lv)
        w0 = time.time()
        if kind == 'uncaught':
            tid, text = who(tag), 'rec<%s>' % tag
        else:
            text = logbase.emit(p, lg, lv, kind, tag)
        k.record('log', who=p.name, th=me, tag=tag, text=text, what=kind, lv=lv, on=on, name=lg.name, t0=t0, w0=w0,
                 w1=time.time(), tid=tid, tname=tname, pid=p.pid,
                 pname=a['pname'] or 'process-%d' % p.pid, hname=a['hname'] or p.host.name)

    def short(me, tag, op):
        """Something logged by, or the end of, a thread that exists for a moment only."""
        def body():
            if op['named']:
                remote.set_thread_name('N' + tag)
            if not op['die']:
                log(None, me, tag, op, op['kind'], th.get_ident(), name)
                return
            logbase.fail(tag)

        def die(tag):
            t.start()
            t.join()
            return t.ident
        name = ('N' if op['named'] else 's') + tag
        t = th.Thread(target=body, name='s' + tag)
        if not op['die']:
            die(tag)
        elif a['hooks']:
            log(die, me, tag, dict(op, name='', level='WARNING'), 'uncaught', None, name)

    def run(ti, ops):
        me = '%s.%d' % (p.name, ti)
        if a['named']:
            remote.set_thread_name('T%d' % ti)
        tid = th.get_ident()
        tname = 'T%d' % ti if a['named'] else None
        seq = 0
        for op in ops:
            try:
                if op['op'] == 'sleep':
                    time.sleep(op['dt'])
                elif op['op'] == 'connect':
                    t0 = k.now
                    connect(addr(spec, op['s']) if op['s'] else addr(spec, op['s']).encode())
                    k.record('connect', who=p.name, s=op['s'], t0=t0)
                else:
                    for j in range(op.get('n', 1)):
                        tag = '%s.%d' % (me, seq)
                        seq += 1
                        if op['op'] == 'short':
                            short(me, tag, op)
                        else:
                            log(None, me, tag, op, op.get('kind', 'plain'), tid, tname or th.current_thread().name)
            except HarnessError:
                raise
            except BaseException as e:
                k.record('client_crashed', who=me, err=repr(e)[:300], tb=lib.tb())
    ts = [th.Thread(target=run, args=(i + 1, ops), name='worker%d' % (i + 1)) for i, ops in enumerate(a['threads'][1:])]
    for t in ts:
        t.start()
    run(0, a['threads'][0])
    for t in ts:
        t.join()
    world.mail.incr('logged')
    k.record('leaving', who=p.name, how=a['leave'])
    if a['exit_stall'] and a['leave'] != 'idle':
        k.at(k.now + a['exit_stall'][0] * 1000, lambda: p.state == 'running' and p.stall(int(a['exit_stall'][1] * SEC)))
        k.fault('stall_at_exit')
    if a['leave'] == 'idle':
        world.mail.get('server_done')
    elif a['leave'] == 'sysexit':
        raise SystemExit(3)
    elif a['leave'] == 'raise':
        if a['hooks']:
            def end(tag):
                return th.get_ident()
            log(end, p.name + '.0', p.name + '.0.99999', {'name': '', 'level': 'WARNING'}, 'uncaught', None,
                'T0' if a['named'] else th.current_thread().name)
        logbase.fail(p.name + '.0.99999')


def setup(world, spec):
    lib.setup_common(world, spec)
    k = world.k
    s = world.start_user(world.hosts[0], 'S', lambda p: server_main(p, spec))
    ps = [world.start_user(world.hosts[a['host']], a['name'], lambda p, a=a: sender_main(p, spec, a)) for a in spec['senders']]
    n = len(ps)
    if spec['garbage']:
        def stranger(p):
            z = p.env.import_('zmq')
            world.mail.get('up0')
            p.env.import_('time').sleep(spec['garbage']['t'])
            q = z.Context.instance().socket(z.PUSH)
            q.connect(addr(spec, 0))
            for j in range(spec['garbage']['n']):
                for m in (b'', b'\xff\x00garbage', b'[1, 2]', b'"text"', b'{"levelno": "high"}', b'{}', b'null',
                          b'{"msg": "%d", "args": ["x"], "levelno": 50, "name": "n"}',
                          b'{"msg": "boom", "args": null, "levelno": 50, "name": "n", "exc_info": null, "exc_text": null}'):
                    q.send(m)
            world.mail.get('server_done')
        world.start_user(world.hosts[0], 'X', stranger)

    def coordinator():
        def gone(p):
            return p.state != 'running'
        end = k.now + 60 * SEC
        while k.now < end and (world.mail.counts.get('logged', 0) + sum(1 for p in ps if p.killed) < n or any(
                p.state == 'running' and a['leave'] != 'idle' for p, a in zip(ps, spec['senders']))):
            k.park(k.now + 20 * MS, on='sleep')
        world.mail.put('senders_done')
        world.mail.get('server_done', 100.0)
        k.finish('done' if 'server_done' in world.mail.box else 'stuck')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    logs, got, conns = {}, {}, {}
    per_proc = {}
    leaving = {}
    ended = {p.name: p for p in world.all_procs}
    for h in k.history:
        if h['k'] == 'log':
            logs[h['tag']] = h
            per_proc.setdefault(h['who'], []).append(h)
        elif h['k'] == 'got':
            if h['tag'] is not None:
                got.setdefault(h['tag'], []).append(h)
        elif h['k'] == 'connect':
            conns.setdefault(h['who'], []).append(h)
        elif h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'server_error':
            v('server-died', h['what'])
        elif h['k'] == 'leaving':
            leaving[h['who']] = h
    loss = any(f['kind'] in ('reset', 'partition') for f in spec['faults']) or spec['restart'] is not None
    slow = max((s['slow'] for s in spec['servers']), default=0)
    for a in spec['senders']:
        who = a['name']
        p = ended[who]
        killed = p.killed
        # -- each record
        for h in per_proc.get(who, ()):
            g = got.pop(h['tag'], [])
            dt = (h['t'] - h['t0'] - lib.stalls_between(world, h['t0'], h['t'])) / SEC
            if dt > 1.0:
                v('blocked', 'creating the record %s took %.2f s' % (h['tag'], dt))
            if h['text'] is None:
                if len(g) > 1:
                    v('duplicated', 'record %s arrived %d times' % (h['tag'], len(g)))
                continue
            if len(g) > 1:
                v('duplicated', 'record %s arrived %d times' % (h['tag'], len(g)))
            if g:
                e = g[0]
                f = e['f']
                n = e['s']
                sv = spec['servers'][n]
                if not h['on'] or sv['filter'] and h['lv'] < max(logbase.LEVELS.get(sv['level'], 0),
                                                                0 if sv['level'] != 'NOTSET' else 30):
                    v('not-filtered', 'record %s of level %d was handled by a server at level %s (filter %s, sent: %s)' % (
                        h['tag'], h['lv'], sv['level'], sv['filter'], h['on']))
                if h['what'] == 'uncaught':
                    if ('Boom: inside ' + h['text']) not in e['text'] or 'in fail' not in e['text'] or \
                            'Unhandled exception' not in e['text']:
                        v('wrong-content', 'the exception %s was logged as %r' % (h['tag'], e['text'][-300:]))
                elif e['text'] != h['text']:
                    v('wrong-content', 'record %s arrived as %r instead of %r' % (h['tag'], e['text'][:200], h['text'][:200]))
                exp = {'name': h['name'], 'levelno': h['lv'], 'process': h['pid'], 'process_name': h['pname'],
                       'thread': h['tid'], 'thread_name': h['tname'], 'host_name': h['hname'], 'exc_info': None}
                bad = {x: (f[x], y) for x, y in exp.items() if f[x] != y}
                if bad:
                    v('wrong-content', 'record %s arrived with wrong attributes: %r' % (h['tag'], bad))
                jump = any(x['kind'] == 'jump' for x in spec['faults'])
                if not jump and not (h['w0'] - 1e-3 <= f['created'] <= h['w1'] + (9 if h['tag'].endswith('.99999') else 1e-3)):
                    v('wrong-content', 'record %s: wrong creation time' % h['tag'])
                if h['what'] in ('exc', 'excobj'):
                    et = f['exc_text'] if isinstance(f['exc_text'], str) else ''
                    if a['extra_handler'] and 'formatted locally' in et:
                        pass
                    elif ('Boom: inside ' + h['tag']) not in et or 'Traceback' not in et:
                        v('wrong-content', 'record %s lost its traceback: %r' % (h['tag'], et[-200:]))
                elif h['what'] == 'stack' and 'in emit' not in (f['stack_info'] or ''):
                    v('wrong-content', 'record %s lost its stack' % h['tag'])
                elif h['what'] in ('extra', 'extra_odd', 'extra_keys', 'nan') and f['myextra'] != [1, 'two', None]:
                    v('wrong-content', 'record %s lost its extra attributes: %r' % (h['tag'], f['myextra']))
                # -- right server
                may = possible_servers(conns.get(who, []), h)
                if n not in may:
                    v('wrong-server', 'record %s went to server %d; the sender was connected to %s' % (h['tag'], n, sorted(may)))
            elif not loss and not killed and not (slow and a['leave'] != 'idle') and h['on']:
                may = possible_servers(conns.get(who, []), h)
                if len(may) != 1:
                    continue
                sv = spec['servers'][list(may)[0]]
                lim = max(logbase.LEVELS.get(sv['level'], 0), 0 if sv['level'] != 'NOTSET' else 30) if sv['filter'] else 0
                if h['lv'] < lim:
                    continue
                if a['leave'] != 'idle':
                    # what is sent right before the end is only safe on a connection that is up
                    lc = [c for c in conns[who] if c['s'] in may and c['t0'] <= h['t']]
                    lt = leaving[who]['t']
                    if lt - lc[-1]['t'] < 0.3 * SEC or lib.stalls_between(world, lt - 3 * SEC, lt + 3 * SEC) or \
                            spec['cfg'].get('hwm', 1000) < 1000 or any(f['kind'] == 'stall' for f in spec['faults']):
                        continue
                elif any(c['t0'] > h['t'] and c['t'] - h['t'] < 1.5 * SEC for c in conns[who]) and (
                        any(f['kind'] == 'stall' for f in spec['faults']) or spec['cfg'].get('hwm', 1000) < 1000):
                    continue
                v('lost', 'record %s (%s, level %d) never arrived' % (h['tag'], h['what'], h['lv']))
        # -- order of what arrived, per server
        seen = {}
        for e in k.history:
            if e['k'] == 'got' and e['tag'] in logs and logs[e['tag']]['who'] == who:
                seen.setdefault(e['s'], []).append(logs[e['tag']])
        for n, ls in seen.items():
            if any(f['kind'] == 'reset' for f in spec['faults']) or spec['restart'] and spec['restart']['s'] == n or \
                    sum(c['s'] == n for c in conns[who]) > 1:
                continue        # what came over the old and the new connection may mix
            hi = None
            for h in ls:
                if hi is not None and h['t'] < hi['t0'] or hi is not None and h['th'] == hi['th'] and h['seq'] < hi['seq']:
                    v('out-of-order', 'record %s arrived after %s' % (h['tag'], hi['tag']))
                if hi is None or h['t0'] >= hi['t0']:
                    hi = h
            last = {}
            for h in ls:
                if last.get(h['th'], -1) > h['seq']:
                    v('out-of-order', 'record %s arrived after a later one of its thread' % h['tag'])
                last[h['th']] = h['seq']
        if not killed and p.exit_code is None and a['leave'] != 'idle':
            v('no-exit', '%s does not end' % who)
        exp = {'exit': 0, 'sysexit': 3, 'raise': 1}.get(a['leave'])
        if not killed and exp is not None and p.exit_code != exp:
            v('client-crashed', '%s exited with %r' % (who, p.exit_code))
        if not killed and who in leaving and p.exited_at is not None and a['leave'] != 'idle':
            dt = (p.exited_at - leaving[who]['t'] - lib.stalls_between(world, leaving[who]['t'], p.exited_at)) / SEC
            if dt > 3:
                v('no-exit', '%s took %.1f s to exit' % (who, dt))
    for tag in got:
        if not ended[tag.split('.')[0]].killed:
            v('wrong-content', 'a record %r arrived that nobody created' % tag)
    return V


def possible_servers(cs, h):
    """Servers a record created during [t0, t] may go to."""
    may = set()
    last = None
    for c in cs:
        if c['t'] <= h['t0']:
            # complete before the record; the later of overlapping connects is unknown
            if last is not None and c['t0'] < last['t']:
                may.add(c['s'])
                last = c if c['t'] > last['t'] else last
            else:
                may = {c['s']}
                last = c
        elif c['t0'] <= h['t']:
            may.add(c['s'])
    return may


def nontrivial(world, spec):
    return len({h['tag'].rsplit('.', 1)[0] for h in world.k.history if h['k'] == 'got' and h['tag']}) > 1
