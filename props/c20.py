"""Started processes log where they were told, at their level and under their names, and so do those they start."""
from dst import lib, logbase
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 700, 'thorough': 25000}
ANOMALIES = {'socket-shared'}
RULE = 'trees of 1-6 processes started with every combination of name, name prefix, log_addr, log_level, daemon, qt, shell; each ' \
       'logs records of 21 kinds from its main thread, short-lived and named threads, and threads that die of exceptions, and may ' \
       'run a log server of its own; the root process logs to its own server, another one, both or none; ' \
       'x delays, clock jumps; non-trivial: a record of a started process arrived'
HOWS = ['main', 'main', 'main', 'thread', 'named', 'die']


def gen_op(rng):
    op = logbase.gen_log(rng, ['', 'app', 'app.sub'])
    while op['kind'] in logbase.BAD:
        op = logbase.gen_log(rng, ['', 'app', 'app.sub'])
    op.update(how=rng.choice(HOWS), off=rng.random() < 0.4)
    return op


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    cfg['max_lines'] = 4000000
    n = [0]

    def node(depth):
        n[0] += 1
        o = {'daemon': rng.random() < 0.2, 'qt': rng.random() < 0.15, 'shell': rng.random() < 0.1,
             'serializer': rng.choice(['msgpack', 'msgpack', 'json']),
             'name': rng.choice([None, 'kid', 'kid%d' % n[0], 'kid%d' % n[0], 'kid %d' % n[0]]),
             'level': rng.choice([None, None, 'DEBUG', 'INFO', 'warning', 10, 25, 40]),
             'log': rng.choice([None, None, 0, 1]), 'bytes': rng.random() < 0.5}
        x = {'id': 'K%d' % n[0], 'opts': o, 'serve': rng.random() < 0.25, 'end': rng.choice(['stop', 'stop', 'close']),
             'ops': [gen_op(rng) for _ in range(rng.randint(0, 5))], 'last': gen_op(rng) if rng.random() < 0.5 else None, 'kids': [],
             'tplevel': rng.choice([None, None, None, 'DEBUG', 'ERROR', 25]), 'sleep': 0.5 if rng.random() < 0.7 else 0}
        if depth < 2:
            while n[0] < 6 and rng.random() < (0.4 if depth else 0.2):
                x['kids'].append(node(depth + 1))
        return x
    kids = [node(0)]
    while n[0] < 5 and rng.random() < 0.4:
        kids.append(node(0))
    spec = {'cfg': cfg, 'kids': kids, 'prefix': rng.choice([None, None, 'pre-']), 'serve': rng.random() < 0.5,
            'log': rng.choice([None, 0, 1]), 'level': rng.choice(['DEBUG', 'INFO', 'WARNING']),
            'tplevel': rng.choice([None, None, None, 'DEBUG', 'ERROR', 25]), 'parallel': rng.random() < 0.4, 'pname': rng.choice([None, 'top']),
            'servers': [{'level': rng.choice(['DEBUG', 'INFO', 'ERROR'])} for _ in range(2)], 'faults': []}
    if rng.random() < 0.2:
        spec['faults'].append({'t': rng.choice([0.1, 0.5, 1.0]), 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-3600, -1, 86400])})
    return spec


def nodes(kids):
    for x in kids:
        yield x
        yield from nodes(x['kids'])


def describe(spec):
    return {'processes': len(list(nodes(spec['kids'])))}


def server_main(p, spec):
    world = p.world
    logging = p.env.import_('logging')
    user = p.env.import_('simuser')
    remote = p.env.import_('teleprox.log.remote')
    p.env.import_('teleprox')
    world.ctx['log_addrs'] = []
    for n, cf in enumerate(spec['servers']):
        lg = logging.getLogger('srv%d' % n)
        lg.propagate = False
        lg.setLevel(cf['level'])
        root = logging.getLogger()
        before = list(root.handlers)
        user.collect('S%d' % n)
        h = [x for x in root.handlers if x not in before][0]
        root.removeHandler(h)
        lg.addHandler(h)
        world.ctx['log_addrs'].append(remote.LogServer(lg).address.decode())
    world.mail.put('up')
    world.mail.get('over')


def parent_main(p, spec):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    remote = p.env.import_('teleprox.log.remote')
    th = p.env.import_('threading')
    world.mail.get('up')
    logging.getLogger().setLevel(spec['level'])
    if spec['tplevel'] is not None:
        logging.getLogger('teleprox').setLevel(spec['tplevel'])
    if spec['pname']:
        remote.set_process_name(spec['pname'])
    if spec['prefix']:
        tp.process.PROCESS_NAME_PREFIX = spec['prefix']
    if spec['log'] is not None:
        remote.set_logger_address(world.ctx['log_addrs'][spec['log']])
    if spec['serve']:
        user.serve('P')

    def run(node):
        try:
            user.grow('P', node)
        except HarnessError:
            raise
        except BaseException as e:
            k.record('client_crashed', who=node['id'], err=repr(e)[:400], tb=lib.tb())
        world.mail.incr('grown')
    if spec['parallel']:
        ts = [th.Thread(target=run, args=(x,)) for x in spec['kids']]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    else:
        for x in spec['kids']:
            run(x)
    world.mail.put('parent_done')
    p.env.import_('time').sleep(4.0)
    world.mail.put('over')


def setup(world, spec):
    lib.setup_common(world, spec)
    world.ctx.update(logbase=logbase, lib=lib)
    k = world.k
    world.start_user(world.hosts[0], 'S', lambda p: server_main(p, spec))
    q = world.start_user(world.hosts[0], 'P', lambda p: parent_main(p, spec))

    def coordinator():
        ok = world.mail.get('parent_done', 200.0)
        world.mail.get('over', 10.0)
        k.park(k.now + SEC // 10, on='sleep')
        k.finish('done' if ok else 'stuck')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    logs, got, grown = [], {}, {}
    for h in k.history:
        if h['k'] == 'log':
            logs.append(h)
        elif h['k'] == 'got':
            if not (h['text'].startswith('[') and '.std' in h['text'][:40]):
                got.setdefault(h['tag'], {}).setdefault(h['at'], []).append(h)
        elif h['k'] == 'grown':
            grown[h['who']] = h
        elif h['k'] == 'grow_failed':
            v('start-failed', '%s: %r' % (h['who'], h['err']))
        elif h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
    if V:
        return V
    L = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, warning=30)

    def tplevel(x, root):
        return root if x['tplevel'] is None else L.get(x['tplevel'], x['tplevel'])
    # who sends to whom: {process: (address, has a server, level, level of the logger of its server)}
    net = {'P': (None if spec['log'] is None else 'S%d' % spec['log'], spec['serve'], L[spec['level']], tplevel(spec, L[spec['level']]))}
    for n, cf in enumerate(spec['servers']):
        net['S%d' % n] = (None, True, L[cf['level']], L[cf['level']])

    def place(kids, by):
        to, serves, _, _ = net[by]
        for x in kids:
            o = x['opts']
            a = 'S%d' % o['log'] if o['log'] is not None else None if o['daemon'] else by if serves else to
            g = grown[x['id']]
            lev = L.get(o['level'], o['level']) if o['level'] is not None else 20 if a is None else g['inherit']
            net[x['id']] = (a, x['serve'], lev, tplevel(x, lev))
            pre = spec['prefix'] or ''
            if o['name'] is not None and g['name'] != pre + o['name']:
                v('wrong-name', '%s was named %r instead of %r' % (x['id'], g['name'], pre + o['name']))
            place(x['kids'], x['id'])
    place(spec['kids'], 'P')

    def reach(at, lv):
        to, serves, _, _ = net[at]
        r = {at} if serves else set()
        if to is not None and lv >= net[to][3]:
            r |= reach(to, lv)
        return r
    procs = {}
    for who, g in grown.items():
        procs[who] = next((p for p in reversed(world.all_procs) if p.pid == g['pid'] and p.started_at <= g['t']), None)

    def gone(at, h):
        """Did a process that has to pass the record on, or is to handle it, end before it could?"""
        p = procs[h['who']]
        if p is not None and p.exited_at is not None and p.exited_at - grown[h['who']]['t'] < 0.4 * SEC:
            return True         # what is sent right before the end is only safe on a connection that is up
        cur = net[h['who']][0]
        while cur is not None:
            p = procs.get(cur)
            if p is not None and p.exited_at is not None and p.exited_at - h['t'] < 0.7 * SEC:
                return True
            if cur == at:
                return False
            cur = net[cur][0]
        return False
    seen = set()
    for h in logs:
        seen.add(h['tag'])
        g = got.get(h['tag'], {})
        lv = net[h['who']][2]
        exp = reach(h['who'], h['lv']) if h['lv'] >= lv else set()
        if h['on'] != (h['lv'] >= lv):
            v('wrong-level', '%s: level %d is %s, but the process was started with level %d' % (
                h['who'], h['lv'], 'on' if h['on'] else 'off', lv))
            continue
        for at in sorted(exp - set(g)):
            if gone(at, h):
                continue
            v('lost', 'record %s of %s (%s, level %d) never arrived at %s' % (h['tag'], h['pname'], h['what'], h['lv'], at))
        for at in sorted(set(g) - exp):
            v('wrong-server', 'record %s of %s (level %d) arrived at %s, expected at %s' % (h['tag'], h['pname'], h['lv'], at, sorted(exp)))
        for at, es in g.items():
            if len(es) > 1:
                v('duplicated', 'record %s arrived %d times at %s' % (h['tag'], len(es), at))
            e = es[0]
            f = e['f']
            if h['what'] == 'die':
                if ('Boom: inside ' + h['text']) not in e['text'] or 'Unhandled exception' not in e['text']:
                    v('wrong-content', 'the exception %s was logged as %r' % (h['tag'], e['text'][-300:]))
            elif e['text'] != h['text']:
                v('wrong-content', 'record %s arrived as %r' % (h['tag'], e['text'][:200]))
            if at == h['who']:
                continue        # (not sent anywhere)
            want = {'name': h['name'], 'levelno': h['lv'], 'process': h['pid'], 'process_name': h['pname'], 'thread': h['tid'],
                    'thread_name': h['tname'], 'host_name': 'alpha'}
            bad = {x: (f[x], y) for x, y in want.items() if f[x] != y}
            if bad:
                v('wrong-attribution', 'record %s arrived at %s with wrong attributes: %r' % (h['tag'], at, bad))
    for tag in got:
        if tag not in seen:
            v('wrong-content', 'a record %r arrived that nobody created' % tag)
    # order of the main thread of each process, at each place
    order = {h['tag']: n for n, h in enumerate(h for h in k.history if h['k'] == 'log')}
    last = {}
    for h in k.history:
        if h['k'] == 'got' and h['tag'] in order and not h['text'].startswith('['):
            key = (h['at'], h['tag'].split('.')[0])
            if last.get(key, -1) > order[h['tag']]:
                v('out-of-order', 'record %s arrived at %s after a later one' % (h['tag'], h['at']))
            last[key] = order[h['tag']]
    return V


def nontrivial(world, spec):
    return any(h['k'] == 'got' and h['at'] != h['tag'].split('.')[0] for h in world.k.history)
