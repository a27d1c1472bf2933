"""The measured clock offset is as good as the round trips allow."""
from dst import lib
from dst.kernel import SEC, HarnessError

RUNS = {'quick': 2500, 'thorough': 40000}
ANOMALIES = {'socket-shared'}
RULE = 'clients on hosts whose clocks differ by up to years and drift measure the offset to local and remote servers (main, ' \
       'thread, Qt), alone and while others keep the server busy x asymmetric delays, stalls, partitions, clock jumps; ' \
       'non-trivial: a measurement between different hosts succeeded'
CLASSES = None


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    hosts = []
    for j, n in enumerate(['alpha', 'beta', 'gamma'][:rng.choice([2, 2, 3])]):
        hosts.append({'name': n, 'ip': '10.0.0.%d' % (j + 1), 'wall': rng.choice([0, 3600, -86400 * 400]) * SEC,
                      'mono': int(rng.choice([5, 1000, 1e5, 3e7]) * SEC * rng.uniform(.5, 1)), 'drift': rng.choice([0, 0, 50, -200])})
    names = [h['name'] for h in hosts]
    servers = [{'name': 'S%d' % j, 'host': rng.choice(names), 'kind': rng.choice(['main', 'main', 'thread', 'qt'])}
               for j in range(rng.choice([1, 2]))]
    clients = []
    for c in range(rng.choice([1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(rng.choice([{'op': 'measure'}, {'op': 'measure'}, {'op': 'measure'}, {'op': 'sleep', 'dt': rng.choice([.01, .5])},
                                   {'op': 'busy', 'n': rng.choice([1, 5, 20]), 'dt': rng.choice([0, .003, .02])},
                                   {'op': 'options'}]))
        clients.append({'name': 'C%d' % c, 'host': rng.choice(names), 'server': rng.choice(servers)['name'], 'ops': ops,
                        'serializer': rng.choice(['msgpack', 'json'])})
    faults = []
    if rng.random() < .5:
        t = 0.01
        for _ in range(rng.choice([1, 2, 4])):
            t += rng.choice([0.003, 0.02, 0.1])
            kind = rng.choice(['stall', 'jump', 'jump', 'partition'])
            if kind == 'stall':
                faults.append({'t': round(t, 4), 'kind': 'stall', 'dur': rng.choice([.02, .3]),
                               'proc': rng.choice([x['name'] for x in servers + clients])})
            elif kind == 'jump':
                faults.append({'t': round(t, 4), 'kind': 'jump', 'host': rng.choice(names), 'by': rng.choice([-3600, 7200, -1])})
            else:
                a, b = rng.sample(names, 2)
                faults.append({'t': round(t, 4), 'kind': 'partition', 'a': a, 'b': b, 'dur': rng.choice([.05, .4])})
    return {'cfg': cfg, 'hosts': hosts, 'servers': servers, 'clients': clients, 'faults': faults}


def describe(spec):
    return {'hosts': [[h['mono'], h['drift']] for h in spec['hosts']], 'clients': spec['clients'][:1]}


def server_main(p, spec, s):
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    addr = 'tcp://%s:*' % p.host.ip
    if s['kind'] == 'qt':
        qt = p.env.import_('teleprox.qt')
        app = qt.QApplication([])
        p.env.import_('teleprox.log').log_exceptions()
        srv = tp.QtRPCServer(addr)
    else:
        srv = tp.RPCServer(addr)
    srv['user'] = user
    if s['kind'] == 'thread':
        srv.run_in_thread()
        p.world.mail.put('addr:' + s['name'], srv.address)
        srv._run_thread.join()
        return
    p.world.mail.put('addr:' + s['name'], srv.address)
    srv.run_forever()
    if s['kind'] == 'qt':
        app.exec_()


def client_main(p, spec, c):
    k, world = p.k, p.world
    tp = p.env.import_('teleprox')
    time = p.env.import_('time')
    srv_host = next(s['host'] for s in spec['servers'] if s['name'] == c['server'])
    other = lib.host(world, srv_host)

    def perf(h):
        """God's-eye reading of the performance counter of a host, in ns."""
        return h.mono_ns()
    try:
        addr = world.mail.get('addr:' + c['server'])
        cl = None
        for i in range(20):
            try:
                cl = tp.RPCClient(addr, serializer=c['serializer'])
                break
            except TimeoutError:
                time.sleep(0.05)
        user = cl['user']
        pend = []
        for oi, op in enumerate(c['ops']):
            if op['op'] == 'sleep':
                time.sleep(op['dt'])
            elif op['op'] == 'busy':
                pend += [user.work('%s.%d.%d' % (c['name'], oi, j), None, op['dt'], _sync='async') for j in range(op['n'])]
            elif op['op'] == 'options':
                user._set_proxy_options(sync='off')
                user.work('%s.%d' % (c['name'], oi))
                user._set_proxy_options(sync='sync')
            else:
                t0 = k.now
                d0 = perf(other) - perf(p.host)
                r = lib.guarded(world, cl.measure_clock_diff)
                d1 = perf(other) - perf(p.host)
                k.record('measured', who=c['name'], far=srv_host != c['host'], t0=t0, r=list(r[:3]), d0=d0, d1=d1)
        for f in pend:
            f.result(60)
    except HarnessError:
        raise
    except BaseException as e:
        k.record('client_crashed', who=c['name'], err=repr(e)[:600], tb=lib.tb())
    finally:
        world.mail.incr('client_done')


def setup(world, spec):
    lib.setup_common(world, spec)
    for s in spec['servers']:
        world.start_user(lib.host(world, s['host']), s['name'], lambda p, s=s: server_main(p, spec, s))
    for c in spec['clients']:
        world.start_user(lib.host(world, c['host']), c['name'], lambda p, c=c: client_main(p, spec, c))

    def coordinator():
        world.mail.wait_count('client_done', len(spec['clients']))
        world.k.finish('done')
    world.k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('deadlock', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    for h in k.history:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'measured':
            if h['r'][0] != 'ok':
                v('failed', '%s: %r' % (h['who'], h['r']))
                continue
            # 9 offsets, each wrong by half of its round trip at most; the round trips fit into the call
            bound = (h['t'] - h['t0']) / 18 * 1.001 + abs(h['d1'] - h['d0']) + 2000
            lo, hi = sorted((h['d0'], h['d1']))
            got = h['r'][1] * SEC
            if not isinstance(h['r'][1], float) or not lo - bound <= got <= hi + bound:
                v('wrong-offset', '%s: measured %r, true %.9f..%.9f, should be within %.9f (took %.6f)' % (
                    h['who'], h['r'][1], lo / SEC, hi / SEC, bound / SEC, (h['t'] - h['t0']) / SEC))
    return V


def nontrivial(world, spec):
    return any(h['k'] == 'measured' and h['far'] and h['r'][0] == 'ok' for h in world.k.history)
