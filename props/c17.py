"""Shared arrays: one memory for all processes, alive as long as its owner, gone with it."""
import numpy as np

from dst import lib
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'a program with 1-3 threads creates shared arrays and views of all shapes, passes them to 1-3 servers (also on another ' \
       'host) as arguments, by transfer() and back, forwards them between servers, writes and reads on all sides while ' \
       'servers are closed, exit or are killed, memory is refused, and finally ends itself or is killed x schedules, stalls; ' \
       'non-trivial: a write of one process was seen by another'
CLASSES = None

SHAPES = [(4,), (2, 3), (3, 2, 2), (1,), (), (0,), (0, 3), (5, 1), (16, 16)]
DTYPES = ['f8', 'i4', 'u1', '>i2', '?', 'c16', 'S3', 'U2', 'M8[s]']


def gen_ops(rng, n, servers):
    ops = [{'op': 'new', 'shape': list(rng.choice(SHAPES)), 'dtype': rng.choice(DTYPES), 'how': rng.choice(['zeros', 'copy', 'copyF']),
            'close': rng.random() < .8}]
    for _ in range(n):
        a, s = rng.randrange(12), rng.choice(servers)
        r = rng.random()
        if r < 0.1:
            ops.append({'op': 'new', 'shape': list(rng.choice(SHAPES)), 'dtype': rng.choice(DTYPES),
                        'how': rng.choice(['zeros', 'copy', 'copyF']), 'close': rng.random() < .8})
        elif r < 0.18:
            ops.append({'op': 'view', 'a': a, 'how': rng.choice(['tail', 'rev', 'T', 'col', 'step', 'one'])})
        elif r < 0.42:
            ops.append({'op': 'send', 'a': a, 's': s, 'how': rng.choice(['arg', 'arg', 'transfer', 'data', 'view'])})
        elif r < 0.54:
            ops.append({'op': 'write', 'a': a, 'v': rng.randrange(1000), 'i': rng.choice([None, 0, 1])})
        elif r < 0.66:
            ops.append({'op': 'rwrite', 'a': a, 'v': rng.randrange(1000), 'i': rng.choice([None, 0, 1])})
        elif r < 0.8:
            ops.append({'op': rng.choice(['check', 'rcheck', 'rvalue']), 'a': a})
        elif r < 0.85:
            ops.append({'op': 'give', 'a': a})
        elif r < 0.9:
            ops.append({'op': 'forward', 'a': a, 's': s})
        elif r < 0.93:
            ops.append({'op': 'rnew', 's': s, 'shape': list(rng.choice(SHAPES)), 'dtype': rng.choice(DTYPES[:6]),
                        'how': rng.choice(['zeros', 'copy']), 'close': rng.random() < .8})
        elif r < 0.96:
            ops.append({'op': rng.choice(['drop', 'rdrop', 'hold']), 'a': a})
        elif r < 0.975:
            ops.append({'op': 'end', 's': s, 'how': rng.choice(['close', 'kill', 'exit'])})
        elif r < 0.985:
            ops.append({'op': 'nomem'})
        else:
            ops.append({'op': 'unlink', 'a': a})
    return ops


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 30 * MS:
        cfg['net_delays'] = [200000, 5 * MS]
    ns = rng.choice([1, 2, 2, 3])
    servers = [{'name': 'S%d' % j, 'host': 'alpha' if j == 0 else rng.choice(['alpha', 'alpha', 'alpha', 'beta']),
                'kind': rng.choice(['main', 'main', 'thread', 'qt'])} for j in range(ns)]
    nt = rng.choice([1, 1, 2, 3])
    names = [s['name'] for s in servers]
    threads = [gen_ops(rng, rng.choice([8, 16, 30, 40]) // nt + 2, names) for _ in range(nt)]
    faults = []
    t = 0.0
    for _ in range(rng.choice([0, 0, 1, 2])):
        t += rng.choice([0.02, 0.1, 0.3])
        if rng.random() < .6:
            faults.append({'t': round(t, 3), 'kind': 'stall', 'proc': rng.choice(names + ['P']), 'dur': rng.choice([.02, .3])})
        else:
            faults.append({'t': round(t, 3), 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-3600, 5])})
    return {'cfg': cfg, 'hosts': [{'name': 'alpha', 'ip': '10.0.0.1'}, {'name': 'beta', 'ip': '10.0.0.2'}],
            'servers': servers, 'threads': threads, 'serializer': rng.choice(['msgpack', 'json']),
            'end': rng.choice(['exit', 'exit', 'exit', 'exception', 'kill']), 'faults': faults}


def describe(spec):
    return {'servers': [[s['kind'], s['host']] for s in spec['servers']], 'threads': spec['threads'], 'end': spec['end'],
            'faults': spec['faults']}


def server_main(p, spec, s):
    tp = p.env.import_('teleprox')
    shm = p.env.import_('simshm')
    addr = 'tcp://%s:*' % p.host.ip
    if s['kind'] == 'qt':
        qt = p.env.import_('teleprox.qt')
        app = qt.QApplication([])
        p.env.import_('teleprox.log').log_exceptions()
        srv = tp.QtRPCServer(addr)
    else:
        srv = tp.RPCServer(addr)
    srv['shm'] = shm
    p.world.mail.put('addr:' + s['name'], srv.address)
    if s['kind'] == 'thread':
        srv.run_in_thread()
        srv._run_thread.join()
        return
    srv.run_forever()
    if s['kind'] == 'qt':
        app.exec_()


class Item:
    """An array as the program knows it: the real thing, and what it must contain."""

    def __init__(self, tag, arr, ref, root):
        self.tag, self.arr, self.ref, self.root = tag, arr, ref, root
        self.at = []            # [(server, proxy of the keeping module)]
        self.data = arr.data if arr is not None else None
        self.holds = []
        self.wrapped = True     # the servers keep the SharedNDArray


class Root:
    """A piece of shared memory."""

    def __init__(self, name, owner, close):
        self.name, self.owner, self.close = name, owner, close
        self.unlinked = False
        self.unsure = False


def fill(ref, v):
    """Some content that depends on v."""
    n = ref.size
    base = np.arange(v, v + n)
    if ref.dtype.kind in 'SU':
        x = base.astype('U').astype(ref.dtype)
    elif ref.dtype.kind == 'M':
        x = base.astype('M8[s]')
    elif ref.dtype.kind == 'b':
        x = base % 2 == 0
    else:
        x = (base % 100).astype(ref.dtype)
    return x.reshape(ref.shape)


class Program:
    def __init__(self, p, spec, ti):
        self.p, self.k, self.world, self.spec, self.ti = p, p.k, p.world, spec, ti
        self.items = []
        self.n = 0
        self.users = {}

    def fail(self, cls, msg):
        self.k.record('bad', cls=cls, msg='thread %d op %s: %s' % (self.ti, self.cur, msg))

    def gone(self, s):
        return s in self.world.ctx['ending']

    def user(self, s):
        if s not in self.users:
            tp = self.p.env.import_('teleprox')
            addr = self.world.mail.get('addr:' + s)
            for i in range(30):
                try:
                    c = tp.RPCClient.get_client(addr)
                    break
                except TimeoutError:
                    if self.gone(s):
                        raise
            self.users[s] = (c, c['shm'])
        return self.users[s]

    def far(self, s):
        return next(x['host'] for x in self.spec['servers'] if x['name'] == s) != 'alpha'

    def content(self, ref):
        return [list(ref.shape), str(ref.dtype), np.ascontiguousarray(ref).tobytes().hex()]

    def same(self, ref, a, what):
        shm = self.p.env.import_('simshm')
        if not shm.mapped(a):
            self.fail('unmapped', '%s: memory of %s is no longer mapped' % (what, self.cur))
            return
        got, want = self.content(a), self.content(ref)
        if got != want:
            self.fail('content', '%s: %s instead of %s' % (what, str(got)[:120], str(want)[:120]))

    def tag(self):
        self.n += 1
        return 't%d.%d' % (self.ti, self.n)

    def no_attach(self, it):
        """Can the memory no longer be attached?"""
        return it.root.unlinked or self.gone(it.root.owner)

    def remote(self, s, fn, tolerant=lambda: False):
        """-> result of fn, or None if the server is ending or the failure was recorded"""
        if self.gone(s):
            return None
        r = lib.guarded(self.world, fn)
        if r[0] == 'ok':
            return r
        if not self.gone(s) and not tolerant():
            self.fail('failed', 'at %s: %s %s' % (s, r[1], r[2][-300:]))
        return None

    def keepers(self, it):
        return [x for x in it.at if not self.gone(x[0])]

    def run(self):
        for n, op in enumerate(self.spec['threads'][self.ti]):
            self.cur = '%d %s' % (n, op)
            try:
                self.step(op)
            except HarnessError:
                raise
            except Exception as e:
                if not self.world.ctx['ending']:
                    self.fail('crashed', '%r %s' % (e, lib.tb()))
        if self.spec['end'] != 'kill':
            self.world.ctx['items'] += self.items

    def step(self, op):
        k, world = self.k, self.world
        o = op['op']
        S = self.p.env.import_('teleprox.shmem').SharedNDArray
        if o == 'new':
            dt = np.dtype(op['dtype'])
            if op['how'] == 'zeros':
                ref = np.zeros(tuple(op['shape']), dt)
                r = lib.guarded(world, lambda: S.zeros(tuple(op['shape']), op['dtype'], **({} if op['close'] else {'close': False})))
            else:
                src = fill(np.zeros(tuple(op['shape']), dt), 50)
                if op['how'] == 'copyF':
                    src = np.asfortranarray(src)
                ref = np.array(src, order='C')
                r = lib.guarded(world, lambda: S.copy(src, op['close']))
                src[...] = np.zeros((), dt)
            if r[0] != 'ok':
                if not (world.ctx.get('nomem') and r[1] == 'OSError'):
                    self.fail('failed', '%s %s' % (r[1], r[2]))
                return
            it = Item(self.tag(), r[1], ref, Root(r[1].shmem.name, 'P', op['close']))
            self.items.append(it)
            world.ctx['roots'].append(it.root)
            self.same(ref, it.data, 'new array')
            return
        if o == 'nomem':
            world.ctx['nomem'] = True
            world.shm_fault = world.__dict__.get('shm_fault', 0) + 1
            return
        if o == 'rnew':
            s = op['s']
            if self.gone(s):
                return
            tag = self.tag()
            r = lib.guarded(world, lambda: self.user(s)[1].make(tag, op['shape'], op['dtype'], op['how'], op['close']))
            if r[0] != 'ok':
                if not self.gone(s) and not self.far(s) and not (world.ctx.get('nomem') and 'No space left' in r[2]):
                    self.fail('failed', 'at %s: %s %s' % (s, r[1], r[2][-300:]))
                return
            if self.far(s):
                self.fail('wrong-host', 'got an array of another host: %r' % (r[1],))
                return
            ref = np.zeros(tuple(op['shape']), op['dtype']) if op['how'] == 'zeros' else np.full(tuple(op['shape']), 7).astype(op['dtype'])
            it = Item(tag, r[1], ref, Root(r[1].shmem.name, s, op['close']))
            it.at.append((s, self.users[s]))
            world.ctx['roots'].append(it.root)
            self.items.append(it)
            self.same(ref, it.data, 'array of the server')
            return
        if o == 'end':
            s = op['s']
            if self.gone(s):
                return
            c, u = self.user(s)
            if self.gone(s):
                return
            world.ctx['ending'][s] = op['how']
            if op['how'] == 'close':
                lib.guarded(world, c.close_server)
            elif op['how'] == 'exit':
                lib.guarded(world, lambda: u.quit_process(_sync='off'))
            else:
                q = lib.find_proc(world, s)
                if q is not None:
                    k.fault('process_kill')
                    q.die(-9, killed=True)
            self.p.env.import_('time').sleep(.03)
            return
        if not self.items:
            return
        it = self.items[op['a'] % len(self.items)]
        if it.root.unsure:
            return
        if o == 'view':
            if it.arr is None:
                return
            sel = {'tail': lambda a: a[1:], 'rev': lambda a: a[::-1], 'T': lambda a: a.T, 'col': lambda a: a[..., -1:],
                   'step': lambda a: a[::2], 'one': lambda a: a[-1:]}[op['how']]
            if it.ref.ndim == 0:
                return
            arr = S(it.arr.shmem, sel(it.data))
            new = Item(self.tag(), arr, sel(it.ref), it.root)
            self.items.append(new)
        elif o == 'send':
            s = op['s']
            if it.arr is None or self.gone(s):
                return
            tag = self.tag()

            def send():
                c, u = self.user(s)
                if op['how'] == 'transfer':
                    x = c.transfer(it.arr)
                    return u.keep(tag, x)
                return u.keep(tag, it.arr, {'arg': False, 'data': True, 'view': 'view', }[op['how']])
            if self.far(s):
                r = lib.guarded(world, send)
                if r[0] == 'ok':
                    self.fail('wrong-host', 'passed to another host: %s' % (r[1],))
                return
            r = self.remote(s, send, lambda: self.no_attach(it))
            if r is not None:
                new = Item(tag, None, it.ref, it.root)
                new.at.append((s, self.users[s]))
                new.wrapped = op['how'] in ('arg', 'transfer')
                if r[1] != self.content(it.ref):
                    self.fail('content', 'sent %s, arrived %s' % (self.content(it.ref), r[1]))
                self.items.append(new)
                k.record('sent', tag=tag, to=s)
        elif o == 'write':
            if it.data is None:
                return
            v = fill(it.ref, op['v'])
            shm = self.p.env.import_('simshm')
            if not shm.mapped(it.data):
                return self.fail('unmapped', 'no longer mapped')
            if op['i'] is None or not it.ref.size or it.ref.ndim == 0:
                it.data[...] = v
                it.ref[...] = v
            else:
                i = np.unravel_index(op['i'] % it.ref.size, it.ref.shape)
                it.data[i] = v[i]
                it.ref[i] = v[i]
            k.record('write', tag=it.tag)
        elif o == 'check':
            if it.data is not None:
                self.same(it.ref, it.data, 'local read')
        elif o in ('rwrite', 'rcheck', 'rvalue', 'give', 'forward', 'rdrop'):
            ks = self.keepers(it)
            if not ks:
                return
            s, (c, u) = ks[0]
            if o == 'rwrite':
                v = fill(it.ref, op['v'])
                r = self.remote(s, lambda: u.write(it.tag, np.ascontiguousarray(v).tobytes().hex(), None))
                if r is None:
                    it.root.unsure = True
                    return
                it.ref[...] = v
                for x in self.items:
                    if x.root is it.root and x.data is not None:
                        self.same(x.ref, x.data, 'written by %s' % s)
                        k.record('seen', tag=it.tag)
            elif o == 'rcheck':
                r = self.remote(s, lambda: u.describe(it.tag))
                if r is not None and r[1] != self.content(it.ref):
                    self.fail('content', '%s has %s instead of %s' % (s, r[1], self.content(it.ref)))
            elif o == 'rvalue':
                r = self.remote(s, lambda: u.whole(it.tag))
                if r is not None:
                    self.same(it.ref, r[1], 'value')
            elif o == 'give':
                if self.no_attach(it) or not it.wrapped:
                    return
                r = self.remote(s, lambda: u.give(it.tag), lambda: self.no_attach(it))
                if r is None:
                    return
                new = Item(self.tag(), r[1], it.ref, it.root)
                self.same(it.ref, new.data, 'given back')
                self.items.append(new)
            elif o == 'forward':
                s2 = op['s']
                if s2 == s or self.far(s2) or self.gone(s2) or self.no_attach(it) or not it.wrapped:
                    return
                r = self.remote(s, lambda: u.forward(it.tag, self.user(s2)[1]), lambda: self.no_attach(it) or self.gone(s2))
                if r is None:
                    return
                new = Item(it.tag, None, it.ref, it.root)
                new.at.append((s2, self.users[s2]))
                self.items.append(new)
                if r[1] != self.content(it.ref):
                    self.fail('content', 'forwarded %s, arrived %s' % (self.content(it.ref), r[1]))
            else:
                self.remote(s, lambda: u.drop(it.tag))
                for x in self.items:
                    if x.tag == it.tag:
                        x.at = [y for y in x.at if y[0] != s]
        elif o == 'drop':
            it.arr = None       # (its data stay in use)
        elif o == 'hold':
            if it.arr is not None and it.arr.shmem.buf is not None:
                it.holds.append(np.frombuffer(it.arr.shmem.buf, 'u1'))
        elif o == 'unlink':
            if it.arr is not None and it.root.owner == 'P' and not it.root.unlinked:
                it.root.unlinked = True
                it.arr.shmem.unlink()


def program_main(p, spec):
    world, k = p.world, p.k
    tp = p.env.import_('teleprox')
    p.env.import_('teleprox.shmem')
    th = p.env.import_('threading')
    tp.RPCClient.default_serializer = spec['serializer']
    ts = []
    progs = []
    for ti in range(len(spec['threads'])):
        g = Program(p, spec, ti)
        progs.append(g)
        x = th.Thread(target=g.run, daemon=True)
        x.start()
        ts.append(x)
    for x in ts:
        x.join()
    world.ctx['progs'] = progs
    k.record('program_ends')
    if spec['end'] == 'exception':
        raise RuntimeError('the program fails')
    if spec['end'] == 'kill':
        k.fault('process_kill')
        p.die(-9, killed=True)


def checker_main(p, spec):
    """Another process looks at what the servers keep after the program has ended."""
    world, k = p.world, p.k
    tp = p.env.import_('teleprox')
    for s in [s['name'] for s in spec['servers']]:
        if s in world.ctx['ending']:
            continue
        c = tp.RPCClient(world.mail.get('addr:' + s))
        u = c['shm']
        for g in world.ctx['progs']:
            for it in g.items:
                if it.root.unsure or not any(x[0] == s for x in it.at):
                    continue
                r = lib.guarded(world, lambda: u.describe(it.tag))
                if r[0] != 'ok' or r[1] != g.content(it.ref):
                    k.record('bad', cls='content-after', msg='%s of %s: %s instead of %s' % (it.tag, s, str(r[1:])[:300], g.content(it.ref)))
        c.close_server()


def setup(world, spec):
    lib.setup_common(world, spec)
    k = world.k
    world.ctx.update(ending={}, items=[], roots=[])
    for s in spec['servers']:
        world.start_user(lib.host(world, s['host']), s['name'], lambda p, s=s: server_main(p, spec, s))
    P = world.start_user(lib.host(world, 'alpha'), 'P', lambda p: program_main(p, spec))

    def snap(when):
        k.record('segments', when=when, names=sorted(n for (h, n) in world.shm))

    def coordinator():
        while P.state == 'running' and k.now < 300 * SEC:
            k.sleep(20 * MS)
        snap('program over')
        k.record('p_over', state=P.state, err=P.excepthook_calls, code=P.exit_code)
        K = world.start_user(lib.host(world, 'alpha'), 'K', lambda p: checker_main(p, spec))
        while K.state == 'running' and k.now < 400 * SEC:
            k.sleep(20 * MS)
        end = k.now + 10 * SEC
        while k.now < end and any(p.state == 'running' for p in world.all_procs):
            k.sleep(20 * MS)
        snap('all over')
        k.record('k_over', state=K.state, err=K.excepthook_calls, code=K.exit_code, left=[p.name for p in world.all_procs if p.state == 'running'])
        k.finish('done')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.3fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    snaps = {}
    for h in k.history:
        if h['k'] == 'bad':
            v(h['cls'], h['msg'])
        elif h['k'] == 'segfault':
            v('unmapped', 'process %d used %s, whose memory is no longer mapped' % (h['pid'], h['tag']))
        elif h['k'] == 'segments':
            snaps[h['when']] = h['names']
        elif h['k'] == 'p_over':
            want = {'exit': 0, 'exception': 1, 'kill': -9}[spec['end']]
            if h['state'] == 'running' or h['code'] != want:
                v('program-end', 'the program: %s' % h)
        elif h['k'] == 'k_over':
            if h['state'] == 'running' or h['code'] != 0 or h['left']:
                v('program-end', 'the checker: %s' % h)
        elif h['k'] == 'atexit_exception':
            v('exit-failed', 'process %d: %s' % (h['pid'], h['err']))
    ending = world.ctx['ending']
    for r in world.ctx['roots']:
        for when, names in snaps.items():
            exists = r.name in names
            if r.owner == 'P':
                over, clean = True, spec['end'] != 'kill'
            else:
                over = when == 'all over' or r.owner in ending
                clean = ending.get(r.owner, 'close') == 'close'
            if r.unlinked:
                if exists:
                    v('not-removed', '%s: %s was unlinked but exists' % (when, r.name))
            elif not over or not r.close:
                if not exists:
                    v('removed', '%s: %s of %s (close=%s) does not exist any more' % (when, r.name, r.owner, r.close))
            elif clean and exists and not (when != 'all over' and r.owner in ending):
                v('not-removed', '%s: %s of %s still exists' % (when, r.name, r.owner))
    return V


def nontrivial(world, spec):
    return any(h['k'] == 'seen' for h in world.k.history)
