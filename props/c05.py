"""Calls that lead back to the caller never deadlock."""
import json

from dst import lib
from dst.kernel import SEC, HarnessError

RUNS = {'quick': 2500, 'thorough': 50000}
RULE = 'random call trees (sync, async, fire-and-forget, callbacks to the caller) over 1-4 servers (main thread, worker ' \
       'threads sharing a process, Qt) and clients with lazy local servers, which may be replaced, x delays, stalls and ' \
       'clock jumps; non-trivial: some server called while it was itself waiting for a call'
CLASSES = None


# ---- generation ---------------------------------------------------------------------
def gen_plan(rng, ids, servers, depth, cbok):
    ids[0] += 1
    p = {'id': '%s%d' % (ids[1], ids[0]), 'sub': []}
    if rng.random() < 0.2:
        p['dt'] = rng.choice([0.001, 0.01, 0.05])
    if rng.random() < 0.3:
        p['order'] = 'rev'
    if depth > 0:
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if ids[0] - ids[2] > 10:
                break
            to = 'cb' if cbok and rng.random() < 0.4 else rng.choice(servers)
            how = rng.choice(['sync', 'sync', 'async', 'off'] if to != 'cb' else ['sync', 'sync', 'async'])
            p['sub'].append({'to': to, 'how': how, 'plan': gen_plan(rng, ids, servers, depth - 1, True)})
    return p


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]      # connecting has a fixed limit of 1 s
    cfg['port_reuse'] = False       # a new server at the address of a closed one is C07's subject
    servers = []
    groups = []
    for j in range(rng.choice([1, 1, 2, 2, 3])):
        kind = rng.choice(['main', 'main', 'thread', 'qt', 'pair'])
        names = ['S%d' % j] if kind != 'pair' else ['S%da' % j, 'S%db' % j]
        servers += names
        groups.append({'name': 'P%d' % j, 'kind': kind, 'servers': names})
    clients = []
    for c in range(rng.choice([1, 1, 2, 3])):
        name = 'C%d' % c
        lazy = rng.random() < 0.7
        ids = [0, name + '-', 0]
        ops = []
        for _ in range(rng.randint(1, 4)):
            ids[2] = ids[0]
            r = rng.random()
            if lazy and r < 0.15:
                ops.append({'op': 'replace', 'close': rng.choice(['server', 'client'])})
            elif r < 0.2:
                ops.append({'op': 'sleep', 'dt': rng.choice([0.001, 0.05])})
            else:
                ops.append({'op': 'call', 'to': rng.choice(servers), 'how': rng.choice(['sync', 'async', 'sync']),
                            'plan': gen_plan(rng, ids, servers, rng.choice([1, 2, 3, 4]), lazy)})
        clients.append({'name': name, 'lazy': lazy, 'ops': ops, 'thread': rng.random() < 0.3,
                        'serializer': rng.choice(['msgpack', 'msgpack', 'json'])})
    faults = []
    if rng.random() < 0.35:
        t = 0.2
        for _ in range(rng.choice([1, 2])):
            t += rng.choice([0.003, 0.02, 0.1])
            if rng.random() < 0.6:
                faults.append({'t': round(t, 4), 'kind': 'stall', 'dur': rng.choice([0.02, 0.3]),
                               'proc': rng.choice([g['name'] for g in groups] + [c['name'] for c in clients])})
            else:
                faults.append({'t': round(t, 4), 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-3600, 3600])})
    return {'cfg': cfg, 'groups': groups, 'clients': clients, 'faults': faults}


def describe(spec):
    return {'groups': [g['kind'] for g in spec['groups']], 'first': spec['clients'][0]['ops'][:1]}


def shrink(spec):
    from dst.driver import default_shrink
    for c in default_shrink(spec):
        if c['clients']:
            yield c

    def cuts(plan):
        for i in range(len(plan['sub'])):
            yield plan['sub'], i
            yield from cuts(plan['sub'][i]['plan'])

    def plans(s):
        for c in s['clients']:
            for o in c['ops']:
                if o['op'] == 'call':
                    yield o['plan']
    n = sum(len(list(cuts(p))) for p in plans(spec))
    for j in range(n):
        c = json.loads(json.dumps(spec))
        lst, i = [x for p in plans(c) for x in cuts(p)][j]
        del lst[i]
        yield c


# ---- programs -----------------------------------------------------------------------
def group_main(p, spec, g):
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    th = p.env.import_('threading')
    world = p.world

    def announce(srv, name):
        srv['user'] = user
        world.mail.put('addr:' + name, srv.address)
    if g['kind'] == 'qt':
        qt = p.env.import_('teleprox.qt')
        app = qt.QApplication([])
        p.env.import_('teleprox.log').log_exceptions()
        srv = tp.QtRPCServer()
        srv.run_forever()
        announce(srv, g['servers'][0])
        app.exec_()
    elif g['kind'] == 'thread':
        srv = tp.RPCServer()
        srv.run_in_thread()
        announce(srv, g['servers'][0])
        srv._run_thread.join()
    elif g['kind'] == 'pair':
        s2 = tp.RPCServer()
        announce(s2, g['servers'][1])
        s2.run_in_thread()
        srv = tp.RPCServer()
        announce(srv, g['servers'][0])
        srv.run_forever()
    else:
        srv = tp.RPCServer()
        announce(srv, g['servers'][0])
        srv.run_forever()


def client_main(p, spec, c):
    world, k = p.world, p.k
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')

    def body():
        try:
            run()
        except HarnessError:
            raise
        except BaseException as e:
            k.record('client_crashed', who=c['name'], err=repr(e)[:600], tb=lib.tb())
        finally:
            world.mail.incr('client_done')

    def run():
        servers = [n for g in spec['groups'] for n in g['servers']]
        first = True
        if c['lazy'] and c['ops'] and c['ops'][0].get('how') == 'sync':
            srv = tp.RPCServer()
            srv.run_lazy()
        pend = []
        for op in c['ops']:
            if op['op'] == 'sleep':
                p.env.import_('time').sleep(op['dt'])
            elif op['op'] == 'replace':
                flush(pend)
                old = tp.RPCServer.get_server()
                while old is not None and old.running():
                    try:
                        old.close()
                    except TimeoutError:    # it could not reach itself within 1 s on this slow network
                        p.env.import_('time').sleep(0.05)
                srv = tp.RPCServer()
                srv.run_lazy()
                k.record('replaced', who=c['name'])
            else:
                addr = world.mail.get('addr:' + op['to'])
                for i in range(30):
                    try:
                        if first:
                            cl = tp.RPCClient(addr, start_local_server=c['lazy'], serializer=c['serializer'])
                        else:
                            cl = tp.RPCClient.get_client(addr)
                        first = False
                        break
                    except TimeoutError:
                        p.env.import_('time').sleep(0.05)
                f = user.peer(op['to']).relay
                mine = user.relayer if c['lazy'] else None
                t0 = k.now
                if op['how'] == 'sync':
                    r = lib.guarded(world, f, op['plan'], mine, _timeout=200.0)
                    k.record('top', who=c['name'], plan=op['plan'], r=r[:3], t0=t0)
                else:
                    pend.append((op, f(op['plan'], mine, _sync='async'), t0))
        flush(pend)

    def flush(pend):
        for op, fut, t0 in pend:
            r = lib.guarded(world, fut.result, 200.0)
            k.record('top', who=c['name'], plan=op['plan'], r=r[:3], t0=t0)
        del pend[:]
    if c['thread']:
        t = p.env.import_('threading').Thread(target=body)
        t.start()
        t.join()
    else:
        body()


def setup(world, spec):
    lib.setup_common(world, spec)
    h = world.hosts[0]
    for g in spec['groups']:
        world.start_user(h, g['name'], lambda p, g=g: group_main(p, spec, g))
    for c in spec['clients']:
        world.start_user(h, c['name'], lambda p, c=c: client_main(p, spec, c))

    def coordinator():
        world.mail.wait_count('client_done', len(spec['clients']))
        # fire-and-forget trees finish on their own
        ids = [i for i in all_ids(spec)]
        world.mail.wait(lambda: False, 5.0)
        world.k.finish('done')
    world.k.spawn(None, coordinator, 'coordinator')


def all_ids(spec):
    def walk(p):
        yield p['id']
        for s in p['sub']:
            yield from walk(s['plan'])
    for c in spec['clients']:
        for o in c['ops']:
            if o['op'] == 'call':
                yield from walk(o['plan'])


# ---- oracle ---------------------------------------------------------------------------
def expect(plan, cb, execd):
    """Reference: what the tree evaluates to, and which nodes must have run."""
    execd.append(plan['id'])
    out = []
    for s in plan['sub']:
        if s['to'] == 'cb' and not cb:
            out.append(None)
            continue
        if s['how'] == 'off' and s['to'] != 'cb':
            v = expect(s['plan'], False, execd)
            out.append(('off', v))
        else:
            out.append(expect(s['plan'], True, execd))
    return [plan['id'], out]


def same(got, exp):
    if isinstance(exp, tuple):
        return got == 'off' or same(got, exp[1])
    if isinstance(exp, list) and isinstance(got, (list, tuple)):
        return len(got) == len(exp) and all(same(a, b) for a, b in zip(got, exp))
    return got == exp


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('deadlock', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    lazy = {c['name']: c['lazy'] for c in spec['clients']}
    count = {}
    for h in k.history:
        if h['k'] == 'exec':
            count[h['tag']] = count.get(h['tag'], 0) + 1
        elif h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'top':
            execd = []
            exp = expect(h['plan'], lazy[h['who']], execd)
            if h['r'][0] != 'ok':
                v('call-failed', '%s: %s failed after %.2fs: %r' % (h['who'], h['plan']['id'], (h['t'] - h['t0']) / SEC,
                                                                   (h['r'][1], h['r'][2][-900:])))
            elif not same(h['r'][1], exp):
                v('wrong-result', '%s: got %r, expected %r' % (h['who'], h['r'][1], exp))
    for t, n in count.items():
        if n > 1:
            v('executed-twice', '%s executed %d times' % (t, n))
    if k.outcome == 'done' and not V:
        for c in spec['clients']:
            for o in c['ops']:
                if o['op'] == 'call':
                    ids = []
                    expect(o['plan'], c['lazy'], ids)
                    miss = [x for x in ids if x not in count]
                    if miss:
                        v('never-executed', 'never executed: %r' % miss)
    for p in world.all_procs:
        if p.exit_code not in (None, 0):
            v('process-died', '%s exited with %r: %r' % (p.name, p.exit_code, p.excepthook_calls[-2:]))
    return V


def nontrivial(world, spec):
    open_ = {}
    for h in world.k.history:
        if h['k'] == 'exec':
            if open_.get((h['pid'], h['th'])):
                return True
            open_[(h['pid'], h['th'])] = open_.get((h['pid'], h['th']), 0) + 1
        elif h['k'] == 'exec_end':
            open_[(h['pid'], h['th'])] -= 1
    return False
