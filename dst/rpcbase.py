"""Request/reply scenario: servers, client threads running generated programs, faults."""
import datetime
import random

from .kernel import US, MS, SEC, HarnessError
from . import lib, values

PAYLOADS = [None, 0, -7, 3.25, True, 'x', 'é☃', [], [1, [2, [None]]], {'a': 1, 'b': [2]}, {'___': None},
            '', {'k': {'z': [1.5, 'q']}}, [None, None], 2 ** 40]


def payload_for(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(PAYLOADS)
    if r < 0.88:
        return {'v': rng.randrange(10 ** 6)}
    return {'blob': rng.choice([10, 3000, 40000])}


def expand(p):
    if isinstance(p, dict) and set(p) == {'blob'}:
        return 'b' * p['blob']
    if isinstance(p, dict) and set(p) == {'v'}:
        return values.build(p['v'])
    return p


# ---- programs --------------------------------------------------------------------
def server_main(p, spec, s):
    world, k = p.world, p.k
    if spec.get('helper'):
        world.mail.get('helper')
    if s.get('down_at_start'):
        world.mail.get('go:' + s['name'])
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    if s.get('threads_tick'):
        pass
    addr = s.get('address', 'tcp://127.0.0.1:*' if s['host'] == 'alpha' and not s.get('public') else
                 'tcp://%s:*' % p.host.ip)
    if s.get('kind') == 'qt':
        qt = p.env.import_('teleprox.qt')
        app = qt.QApplication([])
        p.env.import_('teleprox.log').log_exceptions()
        srv = tp.QtRPCServer(addr)
    else:
        srv = tp.RPCServer(addr)
    srv['user'] = user
    srv['counter'] = user.counter
    k.record('server_up', name=s['name'], pid=p.pid, addr=srv.address.decode())
    world.mail.put('addr:' + s['name'], srv.address)
    world.ctx.setdefault('servers', {})[s['name']] = (p, srv)
    if s.get('kind') == 'qt':
        srv.run_forever()
        app.exec_()
    elif s.get('kind') == 'thread':
        th = p.env.import_('threading')
        # the server object is created in main but run by another thread
        t = th.Thread(target=srv.run_forever)
        t.start()
        t.join()
    else:
        srv.run_forever()
    k.record('server_returned', name=s['name'], pid=p.pid)


class ClientThread:
    def __init__(self, p, spec, c, ti, th):
        self.p, self.k, self.world, self.spec = p, p.k, p.world, spec
        self.env = p.env
        self.c, self.th = c, th
        self.ti = ti
        self.prefix = '%s.%d' % (c['name'], ti)
        self.futs = {}
        self.boxes = {}
        self.client = None
        self.who = self.prefix

    def rec(self, kind, **kw):
        return self.k.record(kind, who=self.who, **kw)

    def connect(self, first=True):
        tp = self.env.import_('teleprox')
        addr = self.world.mail.get('addr:' + self.th['server'])
        kw = {}
        if self.th.get('serializer'):
            kw['serializer'] = self.th['serializer']
        if 'reentrant' in self.th:
            kw['reentrant'] = self.th['reentrant']
        if self.th.get('local_server'):
            kw['start_local_server'] = True
        for attempt in range(self.th.get('connect_attempts', 12)):
            t0 = self.k.now
            r = lib.guarded(self.world, tp.RPCClient, addr, **kw)
            self.rec('connect', ok=r[0] == 'ok', err=r[1:3] if r[0] != 'ok' else None, t0=t0)
            if r[0] == 'ok':
                self.client = r[1]
                r2 = lib.guarded(self.world, lambda: self.client['user'])
                if r2[0] == 'ok':
                    self.user = r2[1]
                    return True
                self.rec('setup_failed', err=r2[1:3])
                lib.guarded(self.world, self.client.close)
            self.env.import_('time').sleep(0.3)
        return False

    def run(self):
        ok = False
        try:
            ok = self.connect()
            if ok:
                for oi, op in enumerate(self.th['ops']):
                    self.step(oi, op)
                self.final()
        except HarnessError:
            raise
        except Exception as e:
            self.rec('client_crashed', err=repr(e), tb=lib.tb())
        finally:
            if not ok:
                self.rec('never_connected')
            self.world.mail.incr('client_done')

    # -- ops
    def step(self, oi, op):
        k = self.k
        kind = op['op']
        time = self.env.import_('time')
        if kind == 'call':
            self.call(oi, op)
        elif kind == 'collect':
            self.collect(op)
        elif kind == 'drop':
            self.futs.pop(op['tag'], None)
        elif kind == 'sleep':
            time.sleep(op['dt'])
        elif kind == 'batch':
            for i in range(op['n']):
                o = {'op': 'call', 'sync': op.get('sync', 'async'), 'payload': op.get('payload'), 'dt': 0,
                     'mode': op.get('mode', 'value')}
                self.call('%sb%d' % (oi, i), o)
            if op.get('collect', True):
                for i in range(op['n']):
                    self.collect({'tag': '%s.%sb%d' % (self.prefix, oi, i), 'how': 'result', 'timeout': 60})
        elif kind == 'ping':
            t0 = k.now
            r = lib.guarded(self.world, self.client.ping)
            self.rec('ping', r=r[:3], t0=t0)
        elif kind == 'set':
            self.reg_op(oi, ('set', op['key'], op['val']))
        elif kind == 'get':
            self.reg_op(oi, ('get', op['key']))
        elif kind == 'incr':
            tag = '%s.%s' % (self.prefix, oi)
            t0 = self.rec('reg_start', tag=tag)['t']
            r = ('ok',)
            if not hasattr(self, 'counter'):
                r = lib.guarded(self.world, self.client.__getitem__, 'counter')
                if r[0] == 'ok':
                    self.counter = r[1]
                else:
                    return
            r = lib.guarded(self.world, self.counter.incr, tag)
            self.rec('reg', tag=tag, op=['incr'], t0=t0, r=r[:3])
        elif kind == 'bad':
            self.bad(oi, op)
        elif kind == 'reconnect':
            lib.guarded(self.world, self.client.close)
            self.futs.clear()
            if hasattr(self, 'counter'):
                del self.counter
            self.rec('closed_client')
            if not self.connect(False):
                raise RuntimeError('cannot reconnect')
        else:
            raise HarnessError('op %r' % (op,))

    def reg_op(self, oi, op):
        t0 = self.rec('reg_start', tag='%s.%s' % (self.prefix, oi))['t']
        if op[0] == 'set':
            r = lib.guarded(self.world, self.client.__setitem__, op[1], op[2])
        else:
            r = lib.guarded(self.world, self.client.__getitem__, op[1])
        self.rec('reg', op=list(op), t0=t0, r=r[:3])

    def call(self, oi, op):
        tag = '%s.%s' % (self.prefix, oi)
        pay = expand(op.get('payload'))
        kw = {'_sync': op.get('sync', 'sync')}
        if 'timeout' in op:
            kw['_timeout'] = op['timeout']
        if op.get('rtype'):
            kw['_return_type'] = op['rtype']
        self.rec('issue', tag=tag, sync=op.get('sync', 'sync'), timeout=op.get('timeout', 10.0), mode=op.get('mode'),
                 pay=op.get('payload'), rtype=op.get('rtype'))
        t0 = self.k.now
        r = lib.guarded(self.world, self.user.work, tag, pay, op.get('dt', 0), op.get('mode', 'value'), **kw)
        if op.get('sync', 'sync') == 'async':
            if r[0] == 'ok':
                self.futs[tag] = r[1]
                self.rec('issued', tag=tag, t0=t0)
            else:
                self.rec('outcome', tag=tag, t0=t0, r=self.summ(r), how='async-send')
        elif op.get('sync') == 'off':
            self.rec('issued_off', tag=tag, t0=t0, r=self.summ(r))
        else:
            self.rec('outcome', tag=tag, t0=t0, r=self.summ(r), how='sync', timeout=op.get('timeout', 10.0))

    def collect(self, op):
        tag = op['tag']
        fut = self.futs.get(tag)
        if fut is None:
            return
        k = self.k
        t0 = k.now
        how = op['how']
        to = op.get('timeout', 20.0)
        if how == 'result':
            r = lib.guarded(self.world, fut.result, to)
        elif how == 'done':
            time = self.env.import_('time')
            r = None
            end = k.now + int(to * SEC)
            while k.now < end:
                d = lib.guarded(self.world, fut.done)
                if d[0] != 'ok':
                    r = d
                    break
                if d[1]:
                    r = lib.guarded(self.world, fut.result, 0)
                    break
                time.sleep(0.01)
            if r is None:
                r = ('never_done', 'done() stayed False')
        elif how == 'exception':
            r = lib.guarded(self.world, fut.exception, to)
            if r[0] == 'ok':
                r = lib.guarded(self.world, fut.result, 0) if r[1] is None else \
                    ('exc', type(r[1]).__name__, str(r[1]), r[1])
        s = self.summ(r)
        self.rec('outcome', tag=tag, t0=t0, r=s, how=how, timeout=to)
        if not (s[0] == 'exc' and s[1] == 'TimeoutError'):
            if op.get('again'):
                r = lib.guarded(self.world, fut.result, 5)
                self.rec('outcome', tag=tag, t0=k.now, r=self.summ(r), how='again', timeout=5)
            self.futs.pop(tag, None)

    def summ(self, r):
        """JSON-able outcome of a call."""
        if r[0] == 'ok':
            v = r[1]
            if type(v).__name__ == 'ObjectProxy':
                q = lib.guarded(self.world, v.whoami)
                return ['proxy', q[1] if q[0] == 'ok' else list(q[1:3])]
            return ['ok', values.canon(v, self.th.get('serializer') == 'json')]
        if r[0] == 'exc':
            e = r[3]
            return ['exc', r[1], r[2][-1200:], getattr(e, 'type_str', None)]
        return list(r)

    def bad(self, oi, op):
        """Requests that must fail in isolation."""
        c, w = self.client, op['what']
        f = None
        tag = '%s.%s' % (self.prefix, oi)
        t0 = self.k.now
        sync = op.get('sync', 'sync')
        if w == 'action':
            f = lambda: c.send('nonsense', opts={'x': 1}, sync=sync)
        elif w == 'noattr':
            f = lambda: self.user.no_such_thing(_sync=sync)
        elif w == 'noimport':
            f = lambda: c._import('no_such_module_anywhere', sync=sync)
        elif w == 'noname':
            f = lambda: c.send('get_item', opts={'name': 'nobody-' + tag}, sync=sync)
        elif w == 'noopts':
            f = lambda: c.send('call_obj', opts=None, sync=sync)
        elif w == 'args':
            f = lambda: self.user.work(_sync=sync)
        elif w == 'kwargs':
            f = lambda: self.user.work(tag, bogus=1, _sync=sync)
        elif w == 'unserializable':
            f = lambda: self.user.work(tag, object(), _sync=sync)
        elif w == 'delete_twice':
            def f():
                b = self.user.make_box(tag)
                b._delete()
                return b._delete(sync=sync)
        elif w == 'decode':
            class Poison(datetime.datetime):
                # travels by value, but cannot be decoded
                def strftime(self, fmt):
                    return 'not a date'

                def isoformat(self, *args, **kwds):
                    return 'not a date'
            f = lambda: self.user.work(tag, Poison(2000, 1, 1), _sync=sync)
        elif w == 'notcallable':
            f = lambda: self.user.counter.n(_sync=sync)
        elif w == 'kbint':
            f = lambda: self.user.work('bad-' + tag, None, 0, 'kbint', _sync=sync)
        elif w == 'exit':
            f = lambda: self.user.work('bad-' + tag, None, 0, 'exit', _sync=sync)
        elif w != 'raw':
            raise HarnessError(w)
        self.rec('bad_start', tag=tag, what=w, sync=sync)
        if w == 'raw':
            return self.raw(op)
        r = lib.guarded(self.world, f)
        if r[0] == 'ok' and sync == 'async' and hasattr(r[1], 'result'):
            r = lib.guarded(self.world, r[1].result, 10)
        self.rec('bad', tag=tag, what=w, sync=sync, t0=t0, r=self.summ(r))

    def raw(self, op):
        """Somebody else's broken client: malformed messages straight on the wire."""
        zmq = self.env.import_('zmq')
        s = zmq.Context.instance().socket(zmq.DEALER)
        if op.get('ident'):
            s.setsockopt(zmq.IDENTITY, bytes(op['ident']))
        s.linger = 1000
        s.connect(self.world.mail.get('addr:' + self.th['server']))
        for m in op['msgs']:
            s.send_multipart([bytes(f) for f in m])
        self.env.import_('time').sleep(op.get('dt', 0.01))
        s.close()

    def final(self):
        """After every fault is over: the client must work within a bound."""
        world, k = self.world, self.k
        end = self.spec.get('quiet_at', 0)
        if k.now < end * SEC:
            self.env.import_('time').sleep(end - k.now / SEC)
        if self.th.get('no_final'):
            return
        for f in list(self.futs):
            self.collect({'tag': f, 'how': 'result', 'timeout': self.spec.get('final_timeout', 15.0)})
        t0 = k.now
        ok = None
        for i in range(3):
            r = lib.guarded(world, self.user.work, '%s.final%d' % (self.prefix, i), i, _timeout=10.0)
            ok = self.summ(r)
            if r[0] == 'ok' and ok == ['ok', ['seq', '%s.final%d' % (self.prefix, i), i]]:
                break
        self.rec('final', t0=t0, r=ok)


def client_main(p, spec, c):
    world, k = p.world, p.k
    env = p.env
    th = env.import_('threading')
    env.import_('teleprox')
    if c.get('process_name'):
        env.import_('teleprox.log').set_process_name(c['process_name'])
    if c.get('delay'):
        env.import_('time').sleep(c['delay'])
    ts = []
    for ti, t in enumerate(c['threads']):
        ct = ClientThread(p, spec, c, ti, t)
        if ti == 0 and c.get('main_first', True):
            first = ct
            continue
        x = th.Thread(target=ct.run, daemon=True)
        x.start()
        ts.append(x)
    if c.get('main_first', True):
        first.run()
    for x in ts:
        x.join()


def setup(world, spec):
    lib.setup_common(world, spec)
    for s in spec['servers']:
        world.start_user(lib.host(world, s['host']), s['name'], lambda p, s=s: server_main(p, spec, s))
    if spec.get('helper'):
        # (its clients are the servers)
        def helper(p):
            srv = p.env.import_('teleprox').RPCServer()
            world.ctx['helper'] = srv.address
            world.mail.put('helper')
            srv.run_forever()
        world.start_user(world.hosts[0], 'H', helper)
    n = 0
    for c in spec['clients']:
        n += len(c['threads'])
        world.start_user(lib.host(world, c['host']), c['name'], lambda p, c=c: client_main(p, spec, c))

    def coordinator():
        world.mail.wait_count('client_done', n)
        if spec.get('linger'):
            world.k.sleep(int(spec['linger'] * SEC))
        world.k.finish('done')
    world.k.spawn(None, coordinator, 'coordinator')


# ---- generation --------------------------------------------------------------------
MODES = ['value'] * 8 + ['raise', 'keyerror', 'box', 'none', 'hugeint', 'badpickle', 'exit', 'intdict', 'objarray', 'poison', 'chain', 'context']


def gen_calls(rng, n, prefix, modes=MODES, syncs=('sync', 'sync', 'async', 'async', 'off'), slow=0.2, short_to=0.15,
              bad=0.05, regs=0.1, reconnect=0.0, batch=0.03):
    ops = []
    outstanding = []
    for i in range(n):
        r = rng.random()
        if r < batch:
            ops.append({'op': 'batch', 'n': rng.choice([3, 10, 30]), 'payload': payload_for(rng)})
            continue
        if r < batch + bad:
            ops.append({'op': 'bad', 'what': rng.choice(BAD), 'sync': rng.choice(['sync', 'async', 'off', 'sync'])})
            if rng.random() < 0.12:
                ops[-1] = {'op': 'bad', 'what': 'raw', 'ident': list(rng.choice([b'', b'raw', b'\xff\xfe%d' % i])),
                           'msgs': [gen_raw(rng) for _ in range(rng.randint(1, 3))]}
            continue
        if r < batch + bad + regs:
            key = rng.choice('ab')
            ops.append(rng.choice([{'op': 'get', 'key': key}, {'op': 'incr'},
                                   {'op': 'set', 'key': key, 'val': '%s/%d' % (prefix, i)}]))
            continue
        if reconnect and r > 1 - reconnect:
            ops.append({'op': 'reconnect'})
            outstanding = []
            continue
        if outstanding and rng.random() < 0.35:
            t = outstanding.pop(rng.randrange(len(outstanding)))
            x = rng.random()
            if x < 0.15:
                ops.append({'op': 'drop', 'tag': t})
            else:
                ops.append({'op': 'collect', 'tag': t, 'how': rng.choice(['result', 'result', 'done', 'exception']),
                            'timeout': rng.choice([20.0, 20.0, 20.0, 0.02]), 'again': rng.random() < 0.3})
            continue
        if rng.random() < 0.08:
            ops.append({'op': 'sleep', 'dt': rng.choice([0, 0.001, 0.02, 0.3])})
            continue
        sync = rng.choice(syncs)
        op = {'op': 'call', 'sync': sync, 'mode': rng.choice(modes), 'payload': payload_for(rng)}
        if rng.random() < slow:
            op['dt'] = rng.choice([0.0005, 0.01, 0.05, 0.4])
        if sync == 'sync' and rng.random() < short_to:
            op['timeout'] = rng.choice([0, 0.001, 0.03, 0.1, 0.5])
        if rng.random() < 0.1:
            op['rtype'] = rng.choice(['proxy', 'value', 'auto'])
            if op['rtype'] == 'proxy':
                op['mode'] = rng.choice(['box', 'raise'])
        ops.append(op)
        if sync == 'async':
            outstanding.append('%s.%d' % (prefix, i))
    return ops


def gen_raw(rng):
    m = [b'%d' % rng.randint(0, 5), b'ping', b'auto', b'msgpack', b'']
    for _ in range(rng.randint(1, 2)):
        j = rng.randrange(5)
        m[j] = rng.choice([b'', b'\xff\xfe', b'x', b'-1', b'json', b'\x81\xa3', b'call_obj', b'1.5', b'get_item'])
    if rng.random() < 0.3:
        m = m[:rng.randint(1, 4)]
    elif rng.random() < 0.2:
        m.append(b'extra')
    if m[1:2] == [b'close']:
        m[1] = b'ping'
    return [list(f) for f in m]


BAD = ['action', 'noattr', 'noimport', 'noname', 'noopts', 'args', 'kwargs', 'unserializable', 'delete_twice',
       'decode', 'notcallable', 'kbint', 'exit']


def gen(rng, tier, nclients=(1, 3), nthreads=(1, 2), nops=(4, 14), faults=None, cfg_kw={}, qt=0.1, two_hosts=0.25, nested=0, **kw):
    cfg = lib.gen_cfg(rng, **cfg_kw)
    helper = rng.random() < nested
    if helper:
        kw['modes'] = MODES + ['nested'] * rng.choice([2, 10])
    hosts = [{'name': 'alpha', 'ip': '10.0.0.1'}]
    two = rng.random() < two_hosts
    if two:
        hosts.append({'name': 'beta', 'ip': '10.0.0.2'})
    servers = []
    for i in range(rng.choice([1, 1, 1, 2])):
        servers.append({'name': 'S%d' % i, 'host': 'alpha', 'public': two,
                        'kind': 'qt' if rng.random() < qt else rng.choice(['main', 'thread'])})
    clients = []
    same_name = rng.random() < 0.5
    for i in range(rng.randint(*nclients)):
        c = {'name': 'C%d' % i, 'host': rng.choice(hosts)['name'], 'threads': [],
             'main_first': rng.random() < 0.8}
        if same_name:
            c['process_name'] = 'worker'
        for j in range(rng.randint(*nthreads)):
            n = rng.randint(*nops)
            pre = '%s.%d' % (c['name'], j)
            t = {'server': rng.choice(servers)['name'], 'ops': gen_calls(rng, n, pre, **kw)}
            if rng.random() < 0.3:
                t['serializer'] = 'json'
            if rng.random() < 0.2:
                t['reentrant'] = False
            elif rng.random() < 0.2:
                t['local_server'] = True
            c['threads'].append(t)
        clients.append(c)
    spec = {'cfg': cfg, 'hosts': hosts, 'servers': servers, 'clients': clients, 'faults': []}
    if helper:
        spec['helper'] = True
    if faults:
        t = 0.0
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            t += rng.choice([0.002, 0.01, 0.05, 0.3, 1.0])
            kind = rng.choice(faults)
            f = {'t': round(t, 4), 'kind': kind}
            if kind == 'partition':
                if not two:
                    continue
                f.update(a='alpha', b='beta', dur=rng.choice([0.05, 0.3, 2.0]))
            elif kind == 'stall':
                f.update(proc=rng.choice([x['name'] for x in servers + clients]), dur=rng.choice([0.02, 0.3, 1.5]))
            elif kind == 'reset':
                f.update(n=rng.randrange(6))
            elif kind == 'jump':
                f.update(host=rng.choice(hosts)['name'], by=rng.choice([-3600, -5, 5, 3600, 86400 * 365]))
            spec['faults'].append(f)
    spec['quiet_at'] = 6.0 if spec['faults'] else 0
    # where nothing can get lost, some wait without limit (a reply that does not come ends as no progress)
    ops = [o for c in clients for t in c['threads'] for o in t['ops']]
    if not any(f['kind'] in ('reset', 'kill') for f in spec['faults']) and not any(o['op'] == 'reconnect' for o in ops) \
            and rng.random() < 0.4:
        for o in ops:
            if rng.random() < 0.4 and (o['op'] == 'call' and o['sync'] == 'sync' or
                                       o['op'] == 'collect' and o['how'] in ('result', 'exception')):
                o['timeout'] = None
        long = [o for o in ops if o['op'] == 'call' and o['sync'] == 'sync' and o.get('timeout', 10) is None]
        if long and len(clients) == len(clients[0]['threads']) == 1 and rng.random() < 0.5:
            rng.choice(long)['dt'] = rng.choice([6.0, 12.0, 25.0])
    return spec


def describe(spec):
    return {'servers': [s['kind'] for s in spec['servers']],
            'clients': [[{'serializer': t.get('serializer', 'msgpack'), 'ops': len(t['ops']), 'first': t['ops'][:2]}
                         for t in c['threads']] for c in spec['clients']], 'faults': spec['faults']}


def shrink(spec):
    import json
    if len(spec['clients']) > 1:
        for i in range(len(spec['clients'])):
            c = json.loads(json.dumps(spec))
            del c['clients'][i]
            yield c
    for i, cl in enumerate(spec['clients']):
        if len(cl['threads']) > 1:
            for j in range(len(cl['threads'])):
                c = json.loads(json.dumps(spec))
                del c['clients'][i]['threads'][j]
                yield c
    from .driver import default_shrink
    for c in default_shrink(spec):
        if all(cl['threads'] for cl in c['clients']) and c['clients']:
            yield c
    if spec['cfg'].get('line_mean'):
        c = json.loads(json.dumps(spec))
        c['cfg']['line_mean'] = 0
        yield c


# ---- oracles -------------------------------------------------------------------------
def wire(v, ser):
    return values.canon(v, ser == 'json')


def expected(iss, ser):
    """-> list of acceptable outcome summaries (without timeouts)."""
    tag, pay, mode = iss['tag'], expand(iss['pay']), iss['mode'] or 'value'
    if iss['rtype'] == 'proxy' and mode == 'box':
        return [['proxy', ['box', tag]]]
    if mode in ('value', 'nested'):
        return [['ok', wire([tag, pay], ser)]]
    if mode == 'echo':
        return [['ok', wire(pay, ser)]]
    if mode == 'none':
        return [['ok', None]]
    if mode == 'box':
        return [['proxy', ['box', tag]]]
    if mode == 'intdict':
        return [['ok', wire({1: tag, 2: pay}, ser)]]
    if mode == 'objarray':
        return [['ok', ['objarray', [3], [tag, None, 3]]], ['exc*', None]]
    if mode == 'hugeint':
        return [['ok', wire(1 << 80, ser)], ['exc*', None]]
    if mode == 'badpickle':
        return [['exc*', None]]
    if mode in ('badexit', 'cyclic', 'badrepr', 'poison'):
        return [['exc*', None]]
    if mode in ('raise', 'chain', 'context'):
        return [['exc', 'CustomError', 'boom-%s' % tag]]
    if mode == 'badtext':
        return [['exc', 'ValueError', tag]]
    if mode == 'keyerror':
        return [['exc', 'KeyError', tag]]
    if mode == 'exit':
        return [['exc', 'SystemExit', 'exit-%s' % tag]]
    if mode == 'kbint':
        return [['exc', 'KeyboardInterrupt', 'kb-%s' % tag]]
    raise HarnessError(mode)


def matches(r, e):
    if r[0] == 'proxy' and e[0] == 'proxy' and r[1] and r[1][0] == 'TimeoutError':
        return True     # (the proxy could not be asked)
    if e[0] == 'exc*':
        return r[0] == 'exc' and r[1] not in ('TimeoutError',)
    if e[0] == 'exc':
        return r[0] == 'exc' and r[1] == 'RemoteCallException' and r[3] == e[1] and \
            ends_token(r[2], e[2])
    return r == e


def ends_token(text, tok):
    i = text.rfind(tok)
    if i < 0:
        return False
    j = i + len(tok)
    return j >= len(text) or not text[j].isdigit()


def serializers(spec):
    m = {}
    for c in spec['clients']:
        for i, t in enumerate(c['threads']):
            m['%s.%d' % (c['name'], i)] = t.get('serializer', 'msgpack')
    return m


def check_common(world, spec):
    """Every rpc-level violation, tagged by class."""
    k = world.k
    H = k.history
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    sers = serializers(spec)
    issued = {}
    for h in H:
        if h['k'] == 'issue':
            issued[h['tag']] = h
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.3fs; blocked: %s' % (k.outcome, k.now / SEC,
                                                                   '; '.join(k.blocked_report[:8])))
    for h in H:
        if h['k'] == 'client_crashed':
            v('client-crashed', h['who'] + ': ' + h['err'] + h['tb'])
    # integrity
    finals = {}
    for h in H:
        if h['k'] != 'outcome':
            continue
        iss = issued[h['tag']]
        r = h['r']
        ser = sers[h['who']]
        if r[0] == 'exc' and r[1] == 'TimeoutError':
            continue
        if r[0] == 'never_done':
            continue
        if h['how'] == 'async-send':
            v('wrong-outcome', 'sending %s raised %r' % (h['tag'], r))
            continue
        exp = expected(iss, ser)
        if iss['mode'] == 'objarray' and r[0] == 'ok':
            if r[1] == [h['tag'], None, 3]:
                continue
        if iss['rtype'] == 'value' and iss['mode'] == 'box':
            exp = exp + [['exc*', None]]
        if not any(matches(r, e) for e in exp):
            v('wrong-outcome', '%s (mode %s) got %r, expected %r' % (h['tag'], iss['mode'], r, exp[0]))
        if h['tag'] in finals and finals[h['tag']] != r and r[0] == 'ok':
            v('outcome-changed', '%s first %r then %r' % (h['tag'], finals[h['tag']], r))
        finals.setdefault(h['tag'], r)
    # execution
    execs = {}
    order = []
    open_exec = {}
    for h in H:
        if h['k'] == 'exec':
            execs[h['tag']] = execs.get(h['tag'], 0) + 1
            order.append((h['tag'], h['pid'], h['seq']))
            o = open_exec.get(h['pid'])
            if o is not None:
                v('overlap', 'server pid %d started %s while %s was still executing' % (h['pid'], h['tag'], o))
            open_exec[h['pid']] = h['tag']
        elif h['k'] == 'exec_end':
            open_exec[h['pid']] = None
    for t, n in execs.items():
        if n > 1:
            v('executed-twice', '%s executed %d times' % (t, n))
    for t, r in finals.items():
        if t in execs or issued[t]['mode'] is None:
            continue
        v('reply-without-execution', '%s resolved to %r but was never executed' % (t, r))
    # order per client (requests still unread when a connection breaks may come late)
    resets = any(f['kind'] in ('reset', 'kill') for f in spec.get('faults', ()))
    seqno = {}
    for h in H:
        if h['k'] == 'issue':
            seqno[h['tag']] = (h['who'], h['seq'])
    last = {}
    for t, pid, s in order:
        if t not in seqno:
            continue
        who, n = seqno[t]
        if last.get(who, (-1, ''))[0] > n and not resets:
            v('reordered', '%s: %s executed after %s although issued before it' % (who, t, last[who][1]))
        last[who] = (n, t)
    lossy = any(f['kind'] in ('reset', 'kill') for f in spec.get('faults', ()))
    lost = k.faults.get('messages_lost', 0)
    reconnects = any(o['op'] == 'reconnect' for c in spec['clients'] for t in c['threads'] for o in t['ops'])
    if not lossy and k.outcome == 'done':
        for t, iss in issued.items():
            if t not in execs and not (reconnects or spec.get('may_lose')):
                v('never-executed', '%s (%s) was never executed though no message was lost' % (t, iss['sync']))
        for h in H:
            if h['k'] == 'outcome' and (h.get('timeout', 0) is None or h.get('timeout', 0) >= 15) and not spec.get('may_lose') and \
                    (h['r'][0] == 'never_done' or (h['r'][0] == 'exc' and h['r'][1] == 'TimeoutError')):
                v('future-never-done' if h['r'][0] == 'never_done' else 'reply-lost', '%s: no reply within %s s though no message was lost' % (h['tag'], h['timeout']))
    # isolation of bad requests
    for h in H:
        if h['k'] == 'bad':
            r = h['r']
            if h['sync'] == 'off' and h['what'] != 'unserializable':
                # (delete_twice first asks for a proxy)
                if r != ['ok', None] and not (lossy and h['what'] == 'delete_twice' and r[0] == 'exc' and r[1] == 'TimeoutError'):
                    v('bad-request', 'off-request %s gave %r' % (h['what'], r))
            elif h['what'] == 'unserializable':
                local = any(t.get('local_server') and h['who'] == '%s.%d' % (c['name'], i)
                            for c in spec['clients'] for i, t in enumerate(c['threads']))
                if not local and not (r[0] == 'exc' and r[1] == 'TypeError'):
                    v('bad-request', 'unserializable argument gave %r instead of TypeError' % (r,))
            elif h['what'] == 'delete_twice' and h['sync'] == 'async':
                pass
            elif not (r[0] == 'exc' and (r[1] == 'RemoteCallException' or (lossy and r[1] == 'TimeoutError') or
                                         r[1] == 'AssertionError')):
                v('bad-request', 'bad request %s gave %r instead of a remote error' % (h['what'], r))
            elif r[1] == 'RemoteCallException' and not r[3]:
                v('bad-request', '%s: error without type' % h['what'])
    # liveness at the end
    for h in H:
        if h['k'] == 'final' and not (h['r'] and h['r'][0] == 'ok'):
            v('not-usable-after-faults', '%s: calls after the faults ended still fail: %r' % (h['who'], h['r']))
        if h['k'] == 'never_connected':
            v('not-usable-after-faults', '%s could never connect' % h['who'])
        if h['k'] == 'server_returned':
            v('server-died', 'server %s stopped serving' % h['name'])
    for p in world.all_procs:
        if p.exit_code not in (None, 0) and not p.killed:
            v('server-died' if p.name.startswith('S') else 'client-crashed',
              '%s exited with %r: %r' % (p.name, p.exit_code, p.excepthook_calls[-2:]))
        elif p.name.startswith('S') and p.state != 'running' and not p.killed:
            v('server-died', '%s exited' % p.name)
    # timing of synchronous calls
    for h in H:
        if h['k'] != 'outcome' or h['how'] not in ('sync', 'result', 'exception') or h['timeout'] is None:
            continue
        el = h['t'] - h['t0']
        to = int(h['timeout'] * SEC)
        extra = lib.stalls_between(world, h['t0'], h['t'])
        lat = SEC // 2 + 3 * max(spec['cfg'].get('wake_delays', [0]))
        if h['r'][0] == 'exc' and h['r'][1] == 'TimeoutError':
            if el < to - 3 * MS:
                v('timeout-early', '%s: TimeoutError after %.4fs with timeout %ss' % (h['tag'], el / SEC, h['timeout']))
            if el > to + lat + extra:
                v('timeout-late', '%s: TimeoutError after %.3fs with timeout %ss' % (h['tag'], el / SEC, h['timeout']))
        elif el > to + lat + extra and h['r'][0] != 'proxy':
            v('timeout-ignored', '%s: returned after %.3fs with timeout %ss' % (h['tag'], el / SEC, h['timeout']))
    return V


def check_registers(world, spec):
    """Namespace cells and the shared counter: linearizable."""
    V = []
    regs = {}
    cnt = {}
    for h in world.k.history:
        if h['k'] != 'reg':
            continue
        srv = server_of(spec, h['who'])
        op, r = h['op'], h['r']
        unknown = r[0] == 'exc' and r[1] == 'TimeoutError'
        end = None if unknown else h['t']
        if op[0] == 'incr':
            if unknown or r[0] == 'ok':
                cnt.setdefault(srv, []).append((h['t0'], end, ('incr',), None if unknown else r[1]))
            else:
                V.append({'class': 'counter-error', 'msg': repr(h)})
            continue
        res = None
        if not unknown:
            if op[0] == 'set':
                res = 'ok' if r[0] == 'ok' else r[1]
            elif r[0] == 'ok':
                res = ('val', r[1])
            else:
                res = 'KeyError' if r[1] == 'RemoteCallException' and 'KeyError' in r[2] else r[1]
        o = ('set', op[2]) if op[0] == 'set' else ('get',)
        regs.setdefault((srv, op[1]), []).append((h['t0'], end, o, res))

    def app(st, op):
        if op[0] == 'set':
            return op[1], 'ok'
        return st, ('KeyError' if st is None else ('val', st))
    for key, ops in sorted(regs.items()):
        if len(ops) <= 16 and not lib.linearizable(ops, None, app):
            V.append({'class': 'not-linearizable', 'msg': 'named item %r: no serial order explains %r' % (key, ops)})
    for srv, ops in cnt.items():
        if len(ops) <= 16 and not lib.linearizable(ops, 0, lambda s, o: (s + 1, s + 1)):
            V.append({'class': 'not-linearizable', 'msg': 'counter of %s: no serial order explains %r' % (srv, ops)})
    return V


def server_of(spec, who):
    c, i = who.rsplit('.', 1)
    for cl in spec['clients']:
        if cl['name'] == c:
            return cl['threads'][int(i)]['server']


def nontrivial(world, spec):
    return any(h['k'] == 'outcome' and not (h['r'][0] == 'exc' and h['r'][1] == 'TimeoutError')
               for h in world.k.history)
