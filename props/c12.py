"""Output of child processes: every line becomes exactly one log record, in order, up to the last byte."""
from dst import lib, procbase
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 1200, 'thorough': 40000}
ANOMALIES = {'socket-shared'}
RULE = '1-3 children of 1-2 parents write text and arbitrary bytes to stdout and stderr from several threads in chunks of any ' \
       'shape and end by stop, kill, exit, crash or with their parent; records go to a log server in the same or another ' \
       'process or to local handlers; pipes deliver short reads; non-trivial: a line was captured'
ENDS = ['stop', 'stop', 'kill', 'close_wait', 'os_exit', 'crash', 'none', 'none']


def piece(rng):
    r = rng.random()
    t = 'w%d' % rng.randrange(10000)
    if r < 0.3:
        return t + '\n'
    if r < 0.45:
        return t
    if r < 0.55:
        return '%s\n%s\n\n%s' % (t, t, rng.choice(['', 'end', 'x\n']))
    if r < 0.62:
        return '\n'
    if r < 0.69:
        return t + '\r\n'
    if r < 0.75:
        return t + '\rprogress\r'
    if r < 0.81:
        return '  %s %%s %%d {x} \t\n' % t
    if r < 0.86:
        return 'L' * rng.choice([5000, 70000]) + t + '\n'
    return (t + ' \u00e9\u4e2d\U0001f600\n').encode().decode('latin-1')


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    cfg['short_reads'] = rng.random() < 0.7
    cfg['max_lines'] = 4000000
    cfg['port_reuse'] = cfg['pid_reuse'] = False    # requests meant for a crashed child reach whoever got its port
    parents = []
    n = 0
    for a in range(rng.choice([1, 1, 1, 2])):
        kids = []
        for c in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for j in range(rng.randint(1, 8)):
                stream = rng.choice(['stdout', 'stdout', 'stderr'])
                how = rng.choice(['text', 'text', 'print', 'buffer', 'fd', 'fd'])
                d = piece(rng)
                if how in ('buffer', 'fd') and rng.random() < 0.3:
                    d = rng.choice(['\xff\xfe raw\n', '\x00\x01\x80', 'caf\xe9\n', '\xe4\xb8', '\xad\n', 'x\x1b[31mred\n'])
                r = rng.random()
                if r < 0.12:
                    ops.append({'op': 'thread', 'stream': stream, 'how': how, 'items': [piece(rng) for _ in range(3)],
                                'dt': rng.choice([0, 0.001, 0.03])})
                elif r < 0.2:
                    ops.append({'op': 'sleep', 'dt': rng.choice([0.01, 0.1])})
                else:
                    ops.append({'op': 'say', 'stream': stream, 'how': how, 'data': d, 'off': rng.random() < 0.3})
            o = {'daemon': False, 'qt': rng.random() < 0.15, 'serializer': rng.choice(['msgpack', 'json']), 'local': False,
                 'name': rng.choice([None, 'kid', 'kid%d' % n]), 'level': rng.choice(['DEBUG', 'DEBUG', None, 'INFO', 'WARNING']),
                 'address': None, 'stdio': rng.choice(['log', 'log', None]), 'log': rng.choice([None, 'str', 'bytes'])}
            kids.append({'id': 'K%d' % n, 'opts': o, 'ops': ops, 'fault': None, 'end': rng.choice(ENDS), 'use': [],
                         'last': piece(rng), 'die_line': rng.choice([None, None, None, rng.randint(1500, 2500)])})
            n += 1
        parents.append({'name': 'P%d' % a, 'kids': kids, 'logs': rng.choice(['own', 'other', 'other', 'local', 'forward', 'relay']),
                        'serial': rng.random() < 0.5, 'level': rng.choice(['DEBUG', 'INFO']), 'basic': rng.random() < 0.4})
    return {'cfg': cfg, 'parents': parents, 'faults': []}


def describe(spec):
    return {'children': sum(len(p['kids']) for p in spec['parents'])}


def recorder(p, k, world, lg):
    logging = p.env.import_('logging')

    class H(logging.Handler):
        def emit(self, rec):
            if rec.msg.startswith('[') or rec.getMessage().startswith('['):
                k.record('line', pid=p.pid, text=rec.getMessage(), lv=rec.levelno,
                         host=getattr(rec, 'process_name', None))
    lg.addHandler(H())


def server_main(p):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    remote = p.env.import_('teleprox.log.remote')
    lg = logging.getLogger('srv')
    lg.setLevel('DEBUG')
    lg.propagate = False
    recorder(p, k, world, lg)
    s = remote.LogServer(lg)
    world.ctx['other'] = s.address
    world.mail.put('log_up')
    world.mail.get('over')


def parent_main(p, spec, a):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    p.env.import_('teleprox')
    log = p.env.import_('teleprox.log')
    time = p.env.import_('time')
    world.mail.get('log_up')
    logging.getLogger().setLevel(a['level'])
    if a['logs'] in ('forward', 'relay'):
        log.set_logger_address(world.ctx['other'])
        world.ctx['log_addr'][p.pid] = log.get_logger_address()
    if a['logs'] in ('own', 'relay'):
        if a.get('basic'):
            log.basic_config(a['level'])
        else:
            log.start_log_server()
        world.ctx['log_addr'][p.pid] = log.get_logger_address()
        recorder(p, k, world, logging.getLogger())
    elif a['logs'] == 'other':
        world.ctx['log_addr'][p.pid] = world.ctx['other']
    elif a['logs'] == 'local':
        recorder(p, k, world, logging.getLogger())
    todo = []
    try:
        for ch in a['kids']:
            s = procbase.Starter(p, ch['id'], ch)
            if not s.start():
                continue
            c = s.child()
            k.record('captured', who=ch['id'], pid=c.pid, serial=c.serial, kinds=[c.init_fds[1].kind, c.init_fds[2].kind],
                     name=s.proc.name)
            if ch['die_line']:
                def act(c=c):
                    k.fault('child_crash')
                    c.die(-9, killed=True)
                c.line_trigger.append((ch['die_line'], act))
            cl = s.proc.client
            for op in ch['ops']:
                if op['op'] == 'sleep':
                    time.sleep(op['dt'])
                    continue

                def f():
                    u = cl._import('simuser')
                    if op['op'] == 'say':
                        return u.say(op['stream'], op['how'], op['data'], _sync='off' if op['off'] else 'sync')
                    return u.say_thread(op['stream'], op['how'], op['items'], op['dt'])
                r = lib.guarded(world, f)
                if r[0] != 'ok' and c.state != 'running':
                    break
                if r[0] != 'ok' and c.state == 'running' and not ch['die_line']:
                    k.record('say_failed', who=ch['id'], op=op, r=list(r[:3]))
            todo.append((s, c))
            if a['serial']:
                end(s, c)
        if not a['serial']:
            for s, c in todo:
                end(s, c)
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who=p.name, err=repr(e)[:300], tb=lib.tb())
    world.mail.incr('ended')
    if a['logs'] in ('own', 'local', 'relay'):
        time.sleep(0.3)
    else:
        return
    # (a log server in this process ends with it, so end the children first)
    for s, c in todo:
        lib.guarded(world, s.proc.stop)
    time.sleep(1.5)


def end(s, c):
    k, ch, pr = s.k, s.plan, s.proc
    how = ch['end']
    t0 = k.now
    r = None
    if how == 'stop':
        r = lib.guarded(s.world, pr.stop)
    elif how == 'kill':
        r = lib.guarded(s.world, pr.kill)
    elif how == 'close_wait':
        lib.guarded(s.world, pr.client.close_server)
        r = lib.guarded(s.world, pr.wait)
    elif how == 'os_exit':
        lib.guarded(s.world, lambda: pr.client._import('simuser').say_and('stdout', 'fd', ch['last'], 'exit', _sync='off'))
        r = lib.guarded(s.world, pr.wait)
    elif how == 'crash':
        k.fault('child_crash')
        c.die(-9, killed=True)
        r = lib.guarded(s.world, pr.wait)
    if r is not None and r[0] != 'ok' and not ch['die_line']:
        k.record('end_failed', who=ch['id'], how=how, r=list(r[:3]))


def setup(world, spec):
    procbase.setup(world, spec)
    k = world.k
    world.start_user(world.hosts[0], 'S', server_main)
    ps = [world.start_user(world.hosts[0], a['name'], lambda p, a=a: parent_main(p, spec, a)) for a in spec['parents']]

    def coordinator():
        end = k.now + 150 * SEC
        while k.now < end and any(p.state == 'running' for p in ps):
            k.park(k.now + 20 * MS, on='sleep')
        k.park(k.now + 3 * SEC, on='sleep')
        k.finish('done' if all(p.state != 'running' for p in ps) else 'stuck')
    k.spawn(None, coordinator, 'coordinator')


def lines_of(data):
    ls = bytes(data).split(b'\n')
    if ls[-1] == b'':
        ls.pop()
    return [x.decode(errors='backslashreplace') for x in ls]


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    plans = {ch['id']: (a, ch) for a in spec['parents'] for ch in a['kids']}
    got = [h for h in k.history if h['k'] == 'line']
    kids = []
    for h in k.history:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] in ('say_failed', 'end_failed'):
            v('call-failed', '%s: %r' % (h['who'], h))
        elif h['k'] == 'started' and not h['ok'] and not plans[h['who']][1]['die_line']:
            v('start-failed', '%s: %r' % (h['who'], h['err']))
        elif h['k'] == 'captured':
            kids.append(h)
    claimed = set()
    groups = {}
    owners = {}
    for h in kids:
        a, ch = plans[h['who']]
        o = ch['opts']
        p = next(x for x in world.all_procs if x.name == a['name'])
        c = next(x for x in world.all_procs if x.serial == h['serial'])
        has_log = a['logs'] in ('own', 'relay', 'forward') or a['logs'] == 'other' and o['log']
        capture = o['stdio'] == 'log' or has_log
        if not capture:
            if 'pipe' in h['kinds']:
                v('wrong-stream', 'output of %s is piped although nothing asked for it' % h['who'])
            continue
        if h['kinds'] != ['pipe', 'pipe']:
            v('wrong-stream', 'output of %s is not captured: %r' % (h['who'], h['kinds']))
            continue
        # the stdio logger has the level of the child; without a server the records go to the local loggers
        lv = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, None: {'DEBUG': 10, 'INFO': 20}[a['level']]}[o['level']]
        there = next(x for x in world.all_procs if x.name == 'S').pid
        # (a relay has its own log server and passes on to the other one what its root logger handles)
        places = [p.pid, there] if a['logs'] == 'relay' else [there] if has_log and a['logs'] != 'own' else [p.pid]
        if a['logs'] == 'other' and not has_log:
            continue            # local loggers without a recorder
        for stream, fd, rl in (('stdout', 1, 20), ('stderr', 2, 30)):
            exp = lines_of(c.init_fds[fd].buf.log)
            if rl < lv or has_log and a['logs'] in ('own', 'relay') and rl < {'DEBUG': 10, 'INFO': 20}[a['level']]:
                exp = []
            for where in places:
                groups.setdefault((where, '[%s.%s] ' % (h['name'], stream), rl), []).append((h['who'], exp, ch))
                owners.setdefault((where, '[%s.%s] ' % (h['name'], stream), rl), []).append((p, h['t']))
    seen = set()
    for (where, prefix, rl), members in groups.items():
        act = []
        for n, g in enumerate(got):
            if g['pid'] == where and g['text'].startswith(prefix):
                seen.add(n)
                act.append(g['text'][len(prefix):])
                if g['lv'] != rl:
                    v('wrong-content', 'line %r of %s was logged with level %d' % (g['text'][:100], prefix, g['lv']))
        if not merges(act, [list(e) for _, e, _ in members]):
            exp = [x for _, e, _ in members for x in e]
            miss, extra = diff(exp, act)
            cls = 'lost' if miss else 'invented' if extra else 'out-of-order'
            if cls == 'lost' and not extra and any(where != q.pid and q.exited_at is not None and q.exited_at - t < 0.3 * SEC
                                                   for q, t in owners[where, prefix, rl]):
                continue        # gone before the connection to the log server was up (C11)
            v(cls, '%s%s: %d lines written, %d logged; missing %r extra %r' % (
                prefix, '+'.join(m[0] for m in members), len(exp), len(act), [m[:60] for m in miss[:4]], [e[:60] for e in extra[:4]]))
    for n, g in enumerate(got):
        if n not in seen and '.std' in g['text'][:40]:
            v('invented', 'a line of nobody was logged in %d: %r' % (g['pid'], g['text'][:100]))
    return V


def diff(exp, act):
    miss, left = [], list(act)
    for e in exp:
        if e in left:
            left.remove(e)
        else:
            miss.append(e)
    return miss, left


def merges(act, lists):
    """Is act an interleaving of the lists?"""
    states = {tuple(0 for _ in lists)}
    for x in act:
        nxt = set()
        for st in states:
            for j, l in enumerate(lists):
                if st[j] < len(l) and l[st[j]] == x:
                    nxt.add(st[:j] + (st[j] + 1,) + st[j + 1:])
        states = nxt
        if not states:
            return False
    return tuple(len(l) for l in lists) in states


def nontrivial(world, spec):
    return any(h['k'] == 'line' for h in world.k.history)
