"""The log handler: every record once, sorted by creation, attributed, in bounded time, complete at exit."""
import re
from dst import lib, logbase
from dst.kernel import SEC, MS, HarnessError

COLOR = re.compile("\x1b\\[[0-9;]*m")
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'local threads and processes on 1-2 hosts with skewed clocks log into one RPCLogHandler whose stream is slow or fails, ' \
       'while clocks jump and processes stall, until the program exits at a random moment; non-trivial: records of two ' \
       'threads were written'
KINDS = ['plain', 'plain', 'args', 'dictargs', 'mutable', 'object', 'exc', 'unicode', 'percent', 'none', 'number', 'direct',
         'badformat', 'newline']


def gen_ops(rng):
    ops = []
    for j in range(rng.randint(1, 10)):
        if rng.random() < 0.7:
            ops.append({'op': 'log', 'n': rng.choice([1, 1, 1, 4, 12]), 'kind': rng.choice(KINDS),
                        'level': rng.choice(['DEBUG', 'INFO', 'WARNING', 'SIXTY', 'FIVE'])})
        else:
            ops.append({'op': 'sleep', 'dt': rng.choice([0.001, 0.01, 0.05, 0.19, 0.2, 0.21, 0.4])})
    return ops


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    if rng.random() < 0.3:
        cfg['line_mean'] = 4
    two = rng.random() < 0.4
    hosts = [{'name': 'alpha', 'ip': '10.0.0.1'}]
    if two:
        hosts.append({'name': 'beta', 'ip': '10.0.0.2', 'wall': int(rng.choice([0, 0.3, 5, 3600, -3600, -0.3]) * SEC)})
    spec = {'cfg': cfg, 'hosts': hosts, 'faults': [], 'named': rng.random() < 0.5,
            'threads': [{'ops': gen_ops(rng), 'daemon': rng.random() < 0.2, 'serial': rng.random() < 0.3, 'byother': rng.random() < 0.3, 'named': rng.random() < 0.7}
                        for _ in range(rng.choice([1, 1, 2, 3, 4]))],
            'senders': [{'name': 'P%d' % j, 'host': rng.randrange(2) if two else 0, 'pname': rng.choice([None, 'proc%d' % j, 'proc']),
                         'threads': [gen_ops(rng) for _ in range(rng.choice([1, 2]))]}
                        for j in range(rng.choice([0, 0, 1, 2]))],
            'stream': rng.choice(['ok', 'ok', 'slow', 'fail', 'stderr']), 'tail': rng.choice([0, 0, 0, 0.1, 0.21, 2]),
            'colorama': rng.random() < 0.4, 'how': rng.choice(['handler', 'basic']), 'leave': rng.choice(['exit', 'exit', 'sysexit', 'raise'])}
    if rng.random() < 0.3:
        f = rng.choice(['stall', 'jump'])
        t = rng.choice([0.01, 0.1, 0.25, 0.5])
        if f == 'stall':
            spec['faults'] = [{'t': t, 'kind': 'stall', 'proc': rng.choice(['H'] + [s['name'] for s in spec['senders']]),
                               'dur': rng.choice([0.1, 0.5])}]
        else:
            spec['faults'] = [{'t': t, 'kind': 'jump', 'host': rng.choice([h['name'] for h in hosts]),
                               'by': rng.choice([-3600, -1, -0.3, 0.3, 3600])}]
    return spec


def describe(spec):
    return {'threads': len(spec['threads']), 'senders': len(spec['senders'])}


def log_ops(p, ops, me, th, time, k, attr):
    logging = p.env.import_('logging')
    lg = logging.getLogger('app')
    seq = 0
    for op in ops:
        if op['op'] == 'sleep':
            time.sleep(op['dt'])
            continue
        for j in range(op['n']):
            tag = '%s.%d' % (me, seq)
            seq += 1
            w0 = time.time()
            t0 = k.now
            text = logbase.emit(p, lg, logbase.LEVELS[op['level']], op['kind'], tag)
            k.record('log', tag=tag, text=text, what=op['kind'], on=lg.isEnabledFor(logbase.LEVELS[op['level']]), t0=t0, w0=w0, w1=time.time(),
                     attr=attr, lv=logbase.LEVELS[op['level']])


def handler_main(p, spec):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    log = p.env.import_('teleprox.log')
    handler = p.env.import_('teleprox.log.handler')
    remote = p.env.import_('teleprox.log.remote')
    time = p.env.import_('time')
    th = p.env.import_('threading')
    sys = p.env.import_('sys')

    class Stream:
        n = 0

        def write(self, s):
            if spec['stream'] == 'slow':
                time.sleep(0.005)
            Stream.n += 1
            if spec['stream'] == 'fail' and Stream.n % 3 == 0:
                k.record('refused', text=s)
                raise OSError(28, 'No space left on device')
            k.record('out', text=s)

        def flush(self):
            pass
    st = Stream()
    if spec['stream'] == 'stderr':
        class Tee:
            def __init__(self, real):
                self.real = real

            def write(self, s):
                k.record('out', text=s)
                return self.real.write(s)

            def __getattr__(self, n):
                return getattr(self.real, n)
        # (the stream of the default handler is fixed when the module is imported)
        st = Tee(sys.stderr)
    root = logging.getLogger()
    if spec['how'] == 'basic':
        log.basic_config(log_level='DEBUG', exceptions=False, start_server=False)
        log.basic_handler.stream = st
    else:
        root.setLevel('DEBUG')
        root.addHandler(handler.RPCLogHandler(st))
    world.ctx['handler'] = p

    class Probe(logging.Handler):
        def emit(self, rec):
            try:
                tag = logbase.tag_of(str(rec.getMessage()))
            except Exception:
                return              # cannot be formatted
            k.record('arrived', tag=tag, created=rec.created, w=time.time())

        def handleError(self, rec):
            pass
    root.addHandler(Probe())
    srv = remote.LogServer(root, 'tcp://10.0.0.1:7000')
    world.mail.put('up')
    try:
        if spec['named']:
            remote.set_process_name('main')
            remote.set_host_name('here')
        ts = []
        for i, t in enumerate(spec['threads']):
            me = 'H.%d' % i

            def run(i=i, t=t, me=me):
                if spec['named'] and t['named'] and not t.get('byother'):
                    remote.set_thread_name('T%d' % i)
                ident = th.get_ident()
                attr = ('here' if spec['named'] else p.host.name, 'main' if spec['named'] else 'process-%d' % p.pid,
                        'T%d' % i if spec['named'] and t['named'] else 'thread-%x' % ident)
                log_ops(p, t['ops'], me, th, time, k, attr)
            if i:
                if t.get('byother') and spec['named'] and t['named']:
                    # named by the main thread instead
                    def body(run=run, go=th.Event()):
                        go.wait()
                        run()
                    x = th.Thread(target=body, daemon=t['daemon'])
                    x.named = body.__defaults__[1]
                else:
                    x = th.Thread(target=run, daemon=t['daemon'])
                ts.append((x, t))
        for x, t in ts:
            x.start()
            if t.get('byother') and spec['named'] and t['named']:
                remote.set_thread_name('T%d' % (ts.index((x, t)) + 1), x.ident)
                x.named.set()
            if t['serial']:
                x.join()
        me = spec['threads'][0]
        run0 = me
        if spec['named']:
            remote.set_thread_name('T0')
        log_ops(p, run0['ops'], 'H.0', th, time, k,
                ('here' if spec['named'] else p.host.name, 'main' if spec['named'] else 'process-%d' % p.pid,
                 'T0' if spec['named'] else 'thread-%x' % th.get_ident()))
        for x, t in ts:
            if not t['daemon']:
                x.join()
        if spec['tail']:
            time.sleep(spec['tail'])
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who='H', err=repr(e)[:300], tb=lib.tb())
    k.record('leaving', w=time.time())
    if spec['leave'] == 'sysexit':
        raise SystemExit(3)
    if spec['leave'] == 'raise':
        raise ValueError('planned')


def sender_main(p, spec, a):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    remote = p.env.import_('teleprox.log.remote')
    time = p.env.import_('time')
    th = p.env.import_('threading')
    world.mail.get('up')
    logging.getLogger().setLevel('DEBUG')
    if a['pname']:
        remote.set_process_name(a['pname'])
    remote.set_logger_address('tcp://10.0.0.1:7000')

    def run(i):
        name = 'R%d' % i
        remote.set_thread_name(name)
        log_ops(p, a['threads'][i], '%s.%d' % (a['name'], i), th, time, k,
                (p.host.name, a['pname'] or 'process-%d' % p.pid, name))
    ts = [th.Thread(target=run, args=(i,)) for i in range(1, len(a['threads']))]
    for t in ts:
        t.start()
    run(0)
    for t in ts:
        t.join()


def setup(world, spec):
    lib.setup_common(world, spec)
    world.ctx['colorama'] = spec.get('colorama', False)
    k = world.k
    h = world.start_user(world.hosts[0], 'H', lambda p: handler_main(p, spec))
    for a in spec['senders']:
        world.start_user(world.hosts[a['host']], a['name'], lambda p, a=a: sender_main(p, spec, a))

    def coordinator():
        end = k.now + 60 * SEC
        while k.now < end and h.state == 'running':
            k.park(k.now + 5 * MS, on='sleep')
        k.finish('done' if h.state != 'running' else 'stuck')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    logs, arrived, out, refused = {}, {}, [], set()
    if spec.get('colorama'):
        for h in k.history:
            if h['k'] in ('out', 'refused'):
                h['text'] = COLOR.sub('', h['text'])
    leaving = None
    for h in k.history:
        if h['k'] == 'log':
            logs[h['tag']] = h
        elif h['k'] == 'arrived':
            if h['tag'] is not None:
                arrived.setdefault(h['tag'], h)
        elif h['k'] == 'out':
            t = logbase.tag_of(h['text'])
            if t is not None and not h['text'].startswith(('Message:', 'Traceback', '  ', 'Arguments')):
                out.append((t, h))
        elif h['k'] == 'refused':
            refused.add(logbase.tag_of(h['text']))
        elif h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'leaving':
            leaving = h
    p = next(x for x in world.all_procs if x.name == 'H')
    exp = {'exit': 0, 'sysexit': 3, 'raise': 1}[spec['leave']]
    if p.exit_code != exp:
        v('client-crashed', 'H exited with %r' % p.exit_code)
    if leaving is None:
        return V
    jump = any(f['kind'] == 'jump' for f in spec['faults'])
    count = {}
    # the failing stream: StreamHandler.write() of the text and the terminator are one call
    for t, h in out:
        count[t] = count.get(t, 0) + 1
        g = logs.get(t)
        if g is None:
            continue                # sender did not get to record it
        if g['text'] is None:
            if g['what'] != 'badformat':
                v('wrong-content', 'record %s cannot be formatted but was written: %r' % (t, h['text'][:200]))
            continue
        want = '[%s:%s:%s] %s' % (g['attr'] + (g['text'],))
        text = h['text']
        if g['what'] == 'exc':
            ok = text.startswith(want + '\nTraceback') and ('Boom: inside ' + t) in text
        else:
            ok = text == want + '\n'
        if not ok:
            v('wrong-content', 'record %s was written as %r instead of %r' % (t, text[:300], want[:300]))
    for t, n in count.items():
        if n > 1:
            v('duplicated', 'record %s was written %d times' % (t, n))
    for t, a in arrived.items():
        g = logs.get(t)
        if g is not None and g['text'] is None or t in count or t in refused:
            continue
        if a['t'] >= leaving['t']:
            continue                # the program was already exiting
        v('lost', 'record %s arrived %.3f s before the program began to exit but was never written' % (
            t, (leaving['t'] - a['t']) / SEC))
    for t, g in logs.items():
        if t.startswith('H.') and g['text'] is not None and g['on'] and t not in arrived and t not in count and t not in refused:
            v('lost', 'record %s never reached the handlers' % t)
    # -- order, for records that arrived well within the sorting delay and whose clock is ours
    if not jump:
        hi = None
        for t, h in out:
            a = arrived.get(t)
            g = logs.get(t)
            if a is None or g is None:
                continue
            lat = a['w'] - a['created']
            good = -0.001 <= lat < 0.15 and a['t'] < leaving['t']
            if good and hi is not None and a['created'] < hi[1]:
                v('out-of-order', 'record %s (created %.6f, arrived %.3f s later) was written after %s (created %.6f)' % (
                    t, a['created'], lat, hi[0], hi[1]))
            if good and (hi is None or a['created'] > hi[1]):
                hi = (t, a['created'])
    # -- timeliness
    n = len(out)
    slack = 1.0 + (0.03 * n if spec['stream'] == 'slow' else 0) + 0.02 * n
    for t, h in out:
        a = arrived.get(t)
        if a is not None:
            dt = (h['t'] - a['t'] - lib.stalls_between(world, a['t'], h['t'])) / SEC
            if dt > 0.4 + slack:
                v('late', 'record %s was written %.2f s after it arrived' % (t, dt))
    for t, a in arrived.items():
        g = logs.get(t)
        if t not in count and t not in refused and not (g is not None and g['text'] is None):
            dt = (leaving['t'] - a['t'] - lib.stalls_between(world, a['t'], leaving['t'])) / SEC
            if dt > 0.4 + slack:
                v('late', 'record %s was not written within %.2f s' % (t, dt))
    return V


def nontrivial(world, spec):
    return len({logbase.tag_of(h['text']).rsplit('.', 1)[0] for h in world.k.history
                if h['k'] == 'out' and logbase.tag_of(h['text'])}) > 1
