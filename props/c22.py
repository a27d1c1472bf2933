"""What is sent by value and what by proxy follows the lists of types of the sender."""
from dst import lib
from dst.kernel import SEC, HarnessError

RUNS = {'quick': 2200, 'thorough': 60000}
MINUS = ['ndarray', 'number', 'bool_', 'dtype', 'datetime', 'date']
PLUS = ['Rec', 'SubRec', 'Other', 'set', 'complex', 'Decimal', 'timedelta', 'range', 'datetime64']
RULE = 'nested structures of values of 30 kinds sent as arguments and results between 1-3 clients with and without servers of ' \
       'their own (also replaced) and 1-2 servers, each with its own list of types, serializer and default proxy options, in every sync and ' \
       'return mode x delays, stalls; non-trivial: something was sent by proxy'


def gen_types(rng):
    if rng.random() < 0.3:
        return None
    return {'minus': [n for n in MINUS if rng.random() < 0.3], 'plus': [n for n in PLUS if rng.random() < 0.3]}


OPTS = [{}, {}, {'timeout': 7}, {'sync': 'async'}, {'return_type': 'proxy'}, {'defer_getattr': False}, {'safe_print': False},
        {'timeout': 20, 'safe_print': False}]


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    cfg['max_lines'] = 3000000
    cfg['port_reuse'] = False                           # a reused address may be that of a server known to be gone
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]          # connecting has a fixed limit of 1 s
    cfg['max_bytes'] = 50000000
    servers = [{'name': 'S%d' % n, 'types': gen_types(rng), 'kind': rng.choice(['main', 'main', 'thread'])}
               for n in range(rng.choice([1, 1, 2]))]
    clients = []
    for n in range(rng.choice([1, 1, 2, 3])):
        threads = []
        for t in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.randint(2, 12)):
                r = rng.random()
                if r < 0.45:
                    ops.append({'op': 'give', 'seed': rng.randrange(10 ** 6), 'rt': rng.choice(['auto', 'auto', 'auto', 'proxy']),
                                'sync': rng.choice(['sync', 'sync', 'async']), 'srv': rng.randrange(len(servers)),
                                'how': rng.choice(['call', 'call', 'call', 'item', 'attr', 'attr_now']),
                                'fwd': rng.random() < 0.4})
                elif r < 0.55:
                    ops.append({'op': 'callback', 'seed': rng.randrange(10 ** 6), 'sync': rng.choice(['sync', 'async']),
                                'srv': rng.randrange(len(servers))})
                elif r < 0.92:
                    ops.append({'op': 'take', 'seed': rng.randrange(10 ** 6), 'sync': rng.choice(['sync', 'sync', 'async', 'off']),
                                'how': rng.choice(['call', 'call', 'kw', 'item', 'transfer']), 'srv': rng.randrange(len(servers)), 'mix': rng.random() < 0.4})
                elif r < 0.94:
                    ops.append({'op': 'restart', 'types': gen_types(rng)})
                else:
                    ops.append({'op': 'opts', 'opts': rng.choice(OPTS), 'srv': rng.randrange(len(servers))})
            threads.append({'types': gen_types(rng), 'serializer': rng.choice(['msgpack', 'json']), 'local': rng.random() < 0.5,
                            'opts': rng.choice(OPTS), 'ops': ops})
        clients.append({'name': 'C%d' % n, 'threads': threads})
    faults = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        faults.append({'t': rng.choice([0.005, 0.02, 0.1]), 'kind': 'stall', 'dur': rng.choice([0.02, 0.1]),
                       'proc': servers[0]['name']})
    return {'cfg': cfg, 'servers': servers, 'clients': clients, 'faults': faults, 'together': rng.random() < 0.4}


def describe(spec):
    return {'servers': [s['types'] for s in spec['servers']]}


def server_main(p, s):
    tp = p.env.import_('teleprox')
    val = p.env.import_('simval')
    srv = tp.RPCServer(serialize_types=val.types(s['types']))
    srv['val'] = val
    p.world.mail.put('addr:' + s['name'], srv.address)
    if s['kind'] == 'thread':
        srv.run_in_thread()
        srv._run_thread.join()
    else:
        srv.run_forever()


class Run:
    def __init__(self, p, spec, c, ti, th):
        self.p, self.k, self.world, self.spec, self.th = p, p.k, p.world, spec, th
        self.who = '%s.%d' % (c['name'], ti)
        self.json = th['serializer'] == 'json'

    def bad(self, cls, op, msg):
        self.k.record('bad', who=self.who, cls=cls, op=op, msg=str(msg)[:1500])

    def run(self):
        try:
            self.body()
        except HarnessError:
            raise
        except BaseException as e:
            self.k.record('client_crashed', who=self.who, err=repr(e)[:900], tb=lib.tb())
        finally:
            self.world.mail.incr('client_done')

    def body(self):
        p, th = self.p, self.th
        self.tp = p.env.import_('teleprox')
        self.val = val = p.env.import_('simval')
        self.mytypes = self.localtypes = val.types(th['types'])
        self.clients, self.mods, self.opts, self.held = [], [], [], []
        for s in self.spec['servers']:
            addr = self.world.mail.get('addr:' + s['name'])
            for attempt in range(8):
                try:
                    c = self.tp.RPCClient(addr, serializer=th['serializer'], start_local_server=th['local'],
                                          serialize_types=self.mytypes)
                    break
                except TimeoutError:
                    if attempt == 7:
                        raise
            self.clients.append(c)
            self.mods.append(c['val'])
            self.opts.append({})
        self.set_opts(0, th['opts'])
        self.n = 0
        for op in th['ops']:
            self.n += 1
            if op['op'] == 'give':
                self.give(op)
            elif op['op'] == 'take':
                self.take(op)
            elif op['op'] == 'callback':
                self.callback(op)
            elif op['op'] == 'restart':
                self.restart(op)
            else:
                self.set_opts(op['srv'], op['opts'])
        for c in self.clients:
            c.close()

    def set_opts(self, n, opts):
        self.clients[n].default_proxy_options.clear()
        self.clients[n].default_proxy_options.update(opts)
        self.opts[n] = dict(opts)

    def fut(self, r):
        return r.result(timeout=15) if type(r).__name__ == 'Future' else r

    def plain(self, n, fn, *args):
        """Call a function of the server and get its result by value."""
        f = self.fut(getattr(self.mods[n], fn)(*args, _sync='sync', _return_type='auto', _timeout=15))
        return f

    def give(self, op):
        val, n = self.val, op['srv']
        key = '%s.%d' % (self.who, self.n)
        want = val.build(op['seed'])
        st = val.types(self.spec['servers'][n]['types'])
        kw = {} if op['how'] == 'item' else {'sync': op['sync'], 'return_type': op['rt'], 'timeout': 15}

        def get():
            if op['how'] == 'item':
                self.plain(n, 'give_item', key, op['seed'])
                return self.clients[n][key]
            if op['how'] == 'call':
                return self.mods[n].give(key, op['seed'], **{'_' + a: b for a, b in kw.items()})
            box = self.plain(n, 'give_attr', key, op['seed'])
            if op['how'] == 'attr_now':
                # (looked up at once, with the options of the proxy)
                kw['return_type'] = 'auto'
                box._set_proxy_options(sync='sync', return_type='auto', defer_getattr=False)
                return box.attr
            box._set_proxy_options(defer_getattr=True)
            return box.attr._undefer(**kw)
        r = lib.guarded(self.world, lambda: self.fut(get()))
        if r[0] != 'ok':
            return self.bad('call-failed', op, (r[1], str(r[2])[-800:]))
        got = r[1]
        exp = ['proxy', str(type(want)), []] if kw.get('return_type') == 'proxy' else val.tree(want, st, self.json)
        act = val.tree(got, expected=False) if not self.json else self.jtree(got)
        if self.norm(exp) != self.norm(act):
            return self.bad('wrong-result', op, 'got %r, expected %r' % (act, exp))
        # every proxy is the very object, and has the options that this client gives to its proxies
        def proxies():
            for path, x in val.leaves(got):
                if type(x).__name__ == 'ObjectProxy':
                    yield path, x
        base = {'sync': 'sync', 'timeout': 10, 'return_type': 'auto', 'defer_getattr': True, 'auto_delete': False,
                'safe_print': True}
        base.update(self.opts[n])
        some = False
        for path, x in proxies():
            some = True
            o = {a: b for a, b in x._proxy_options.items() if a in base}
            if o != base:
                self.bad('wrong-options', op, 'a proxy at %r has options %r instead of %r' % (path, o, base))
            if self.plain(n, 'is_given', key, list(path), x) is not True:
                self.bad('wrong-object', op, 'the proxy at %r is of something else' % (path,))
            if base['safe_print']:
                rep = repr(x)
                if x._type_str not in rep or x._rpc_addr.decode() not in rep:
                    self.bad('wrong-repr', op, rep)
        self.k.record('sent', some=some)
        if some and op['fwd']:
            self.held.append((n, key, got))

    def take(self, op):
        val, n = self.val, op['srv']
        key = '%s.%d' % (self.who, self.n)
        x = val.build(op['seed'])
        held = None
        if op['mix'] and self.held:
            held = self.held[op['seed'] % len(self.held)]
            x = [x, held[2]]
        types = self.mytypes
        stuck = not self.th['local'] and any(not val.by_value(y, types, self.json) for _, y in val.leaves(x)
                                             if type(y).__name__ != 'ObjectProxy')
        kw = dict(_sync=op['sync'], _timeout=15, _return_type='auto')

        def f():
            if op['how'] == 'kw':
                return self.fut(self.mods[n].take(key=key, x=x, **kw))
            if op['how'] == 'call':
                return self.fut(self.mods[n].take(key, x, **kw))
            if op['how'] == 'transfer':
                t = self.clients[n].transfer(x, timeout=15)
                if type(t).__name__ != 'ObjectProxy':
                    raise AssertionError('transfer() returned %r' % (t,))
                return self.fut(self.mods[n].take(key, t, **kw))
            self.clients[n][key] = x
            return self.fut(self.mods[n].take_item(key, **kw))
        r = lib.guarded(self.world, f)
        if stuck:
            if r[0] != 'exc' or r[1] != 'TypeError':
                self.bad('not-refused', op, 'nothing can serve a proxy, but the call gave %r' % (r[:3],))
            elif self.plain(n, 'took', key):
                self.bad('not-refused', op, 'the refused call was made')
            return
        if r[0] != 'ok':
            return self.bad('call-failed', op, (r[1], str(r[2])[-800:]))
        exp = self.expect(x, n, held)
        if op['sync'] == 'off':
            if r[1] is not None:
                self.bad('wrong-result', op, r[1])
            t = lib.guarded(self.world, self.plain, n, 'took', key)
            if t[:2] != ('ok', True):
                return self.bad('call-failed', op, 'a call without response was not made: %r' % (t[:3],))
        elif self.norm(r[1]) != self.norm(exp):
            return self.bad('wrong-argument', op, 'the server got %r, expected %r' % (r[1], exp))
        # what was sent by proxy comes back as itself
        if self.th['local']:
            b = lib.guarded(self.world, lambda: self.plain(n, 'back', key))
            if b[0] != 'ok':
                return self.bad('call-failed', op, b[1:3])
            if type(b[1]).__name__ == 'ObjectProxy':
                return
            for path, y in val.leaves(x):
                if type(y).__name__ != 'ObjectProxy' and not val.by_value(y, types, self.json) and val.at(b[1], path) is not y:
                    self.bad('wrong-object', op, '%r at %r came back as %r' % (y, path, val.at(b[1], path)))
        self.k.record('sent', some=any(not val.by_value(y, types, self.json) for _, y in val.leaves(x)))

    def restart(self, op):
        """Another local server takes over."""
        if self.th['local']:
            self.tp.RPCServer.get_server().close()
            self.tp.RPCServer(serialize_types=self.val.types(op['types'])).run_lazy()
            self.localtypes = self.val.types(op['types'])

    def callback(self, op):
        """The server calls a function of this client, whose results follow the types of this client."""
        val, n = self.val, op['srv']
        if not self.th['local']:
            return
        key = '%s.%d' % (self.who, self.n)
        kw = dict(_sync=op['sync'], _timeout=25, _return_type='auto')
        f = lambda fn, *a: lib.guarded(self.world, lambda: self.fut(getattr(self.mods[n], fn)(*a, **kw)))
        r = f('call', val.give, key, op['seed'])
        if r[0] != 'ok':
            return self.bad('call-failed', op, (r[1], str(r[2])[-800:]))
        exp = val.tree(val.build(op['seed']), self.localtypes, False)
        if r[1] != exp and self.norm(r[1]) != self.norm(exp):
            return self.bad('wrong-result', op, 'the server got %r from a callback, expected %r' % (r[1], exp))
        r = f('identity', val.give, val.is_given, key, op['seed'])
        if r[0] != 'ok':
            return self.bad('call-failed', op, (r[1], str(r[2])[-800:]))
        if not all(x is True for x in r[1]):
            self.bad('wrong-object', op, 'a proxy of a result of a callback is of something else')

    def expect(self, x, n, held):
        """What the function of the server sees."""
        val = self.val

        def see(y):
            if type(y).__name__ == 'ObjectProxy':
                if held[0] == n:
                    return self.own(held, y)
                return ['proxy', y._type_str, []]
            if isinstance(y, (list, tuple)):
                return ['seq'] + [see(z) for z in y]
            if isinstance(y, dict):
                return ['dict'] + [[k, see(z)] for k, z in sorted(y.items())]
            return val.tree(y, self.mytypes, self.json, True, False)
        return see(x)

    def own(self, held, y):
        """The server's own object."""
        orig = self.val.build(self.seed_of(held[1]))
        for path, z in self.val.leaves(held[2]):
            if z is y:
                t = self.val.tree(self.val.at(orig, path), expected=False)
                return t
        raise HarnessError('lost proxy')

    def seed_of(self, key):
        return self.th['ops'][int(key.rsplit('.', 1)[1]) - 1]['seed']

    def jtree(self, got):
        return self.val.tree(got, json=True, expected=False)

    def norm(self, t):
        """(tuples in trees that travelled are lists; json makes plain floats of those of numpy)"""
        if isinstance(t, (list, tuple)):
            if len(t) == 3 and t[0] == 'np' and t[1] == '<f8' and self.json:
                return ['float', str(t[2]).replace('np.float64(', '').rstrip(')')]
            return [self.norm(y) for y in t]
        return t


def client_main(p, spec, c):
    p.env.import_('teleprox')
    th = p.env.import_('threading')
    ts = [th.Thread(target=Run(p, spec, c, i, t).run) for i, t in enumerate(c['threads'][1:], 1)]
    for t in ts:
        t.start()
    Run(p, spec, c, 0, c['threads'][0]).run()
    for t in ts:
        t.join()


def setup(world, spec):
    lib.setup_common(world, spec)
    h = world.hosts[0]
    n = 0
    if spec['together'] and len(spec['servers']) > 1:
        def both(p):
            th = p.env.import_('threading')
            t = th.Thread(target=server_main, args=(p, spec['servers'][0]))
            t.start()
            server_main(p, spec['servers'][1])
            t.join()
        world.start_user(h, spec['servers'][0]['name'], both)
    else:
        for s in spec['servers']:
            world.start_user(h, s['name'], lambda p, s=s: server_main(p, s))
    for c in spec['clients']:
        n += len(c['threads'])
        world.start_user(h, c['name'], lambda p, c=c: client_main(p, spec, c))

    def coordinator():
        world.mail.wait_count('client_done', n)
        world.k.finish('done')
    world.k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    for h in k.history:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'bad':
            v(h['cls'], '%s %r: %s' % (h['who'], h['op'], h['msg']))
    return V


def nontrivial(world, spec):
    return any(h['k'] == 'sent' and h['some'] for h in world.k.history)
