"""References: an object lives exactly as long as somebody holds a reference, and a dead reference reaches nothing."""
import json

from dst import lib
from dst.kernel import SEC, HarnessError

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'programs of 1-4 clients that create, use, echo, copy, share through a third process, delete and auto-delete proxies ' \
       'to tracked objects while object ids are reused, optionally with the owning server closed or killed and replaced at ' \
       'the same address; non-trivial: some object was released during the run'


# ---- generation ---------------------------------------------------------------------
def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    cfg['port_reuse'] = False
    cfg['id_reuse'] = rng.random() < 0.9
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    clients = []
    n = [0]
    shared = []
    kept = []
    for c in range(rng.choice([1, 2, 2, 3, 4])):
        name = 'C%d' % c
        live = []
        ops = []
        for j in range(rng.randint(3, 16)):
            r = rng.random()
            n[0] += 1
            h = 'h%d' % n[0]
            if r < 0.22 or not live:
                r2 = rng.random()
                if r2 < 0.25 and shared:
                    ops.append({'op': 'fetch', 'h': h, 'name': rng.choice(shared)})
                elif r2 < 0.45 and kept:
                    ops.append({'op': 'get_kept', 'h': h, 'tag': rng.choice(kept)})
                elif r2 < 0.55:
                    hs = [h]
                    for _ in range(rng.randint(1, 3)):
                        n[0] += 1
                        hs.append('h%d' % n[0])
                    ops.append({'op': 'make_many', 'hs': hs, 'tags': ['o' + x[1:] for x in hs],
                                'shape': rng.choice(['list', 'dict', 'tuple', 'deep'])})
                    live.extend(hs[1:])
                else:
                    keep = rng.random() < 0.25
                    tag = 'o%d' % n[0]
                    ops.append({'op': 'make', 'h': h, 'tag': tag, 'keep': keep,
                                'how': rng.choice(['sync', 'sync', 'async'])})
                    if keep:
                        kept.append(tag)
                live.append(h)
            elif r < 0.42:
                ops.append({'op': 'use', 'h': rng.choice(live),
                            'how': rng.choice(['who', 'arg', 'args', 'attr', 'copy', 'value', 'async', 'stashed'])})
            elif r < 0.56:
                ops.append({'op': 'again', 'h': h, 'of': rng.choice(live), 'how': rng.choice(['me', 'echo', 'inner', 'transfer'])})
                live.append(h)
            elif r < 0.62:
                nm = 'n%d' % n[0]
                ops.append({'op': 'share', 'h': rng.choice(live), 'name': nm})
                shared.append(nm)
            elif r < 0.66 and kept:
                ops.append({'op': 'unkeep', 'tag': rng.choice(kept)})
            elif r < 0.70 and len(live) > 1:
                ops.append({'op': rng.choice(['same', 'eq']), 'h': rng.choice(live), 'of': rng.choice(live)})
            elif r < 0.73:
                ops.append({'op': 'sleep', 'dt': rng.choice([0.001, 0.02])})
            else:
                x = rng.choice(live)
                how = rng.choice(['delete', 'delete', 'off', 'auto', 'drop', 'async', 'delete2', 'auto_attr',
                                  'auto_copy', 'auto_attr2'])
                ops.append({'op': 'delete', 'h': x, 'how': how})
                if how.startswith('auto') or how == 'drop' or rng.random() < 0.5:
                    live.remove(x)
        clients.append({'name': name, 'ops': ops, 'end': rng.choice(['delete', 'delete', 'leave'])})
    spec = {'cfg': cfg, 'clients': clients, 'kind': rng.choice(['main', 'main', 'thread', 'qt']), 'faults': [],
            'threads': rng.random() < 0.3}
    if rng.random() < 0.25:
        # the server goes away and another one takes its address, making new objects
        spec['restart'] = {'how': rng.choice(['close', 'kill']), 't': rng.choice([0.05, 0.1, 0.2, 0.4]),
                           'gap': rng.choice([0, 0.01, 0.3])}
        spec['kind'] = 'main'
    elif rng.random() < 0.25:
        spec['faults'] = [{'t': rng.choice([0.1, 0.15, 0.2]), 'kind': 'stall', 'dur': rng.choice([0.02, 0.3]),
                           'proc': rng.choice(['S', 'T'] + [c['name'] for c in clients])}]
    return spec


def describe(spec):
    return {'kind': spec['kind'], 'restart': spec.get('restart'), 'clients': [len(c['ops']) for c in spec['clients']]}


# ---- programs -----------------------------------------------------------------------
def owner_main(p, spec, gen_, addr):
    tp = p.env.import_('teleprox')
    user = p.env.import_('simuser')
    world = p.world
    if gen_ > 0 and spec['restart']['gap']:
        p.env.import_('time').sleep(spec['restart']['gap'])
    if spec['kind'] == 'qt':
        qt = p.env.import_('teleprox.qt')
        app = qt.QApplication([])
        p.env.import_('teleprox.log').log_exceptions()
        srv = tp.QtRPCServer(addr)
    else:
        srv = None
        for i in range(200):
            try:
                srv = tp.RPCServer(addr)
                break
            except Exception:
                if gen_ == 0:
                    raise
                p.env.import_('time').sleep(0.05)
    srv['user'] = user
    world.k.record('owner_up', gen=gen_, pid=p.pid)
    world.mail.put('addr:S', srv.address)
    world.mail.put('gen', gen_)
    world.ctx['S'] = p
    if spec['kind'] == 'qt':
        srv.run_forever()
        app.exec_()
    elif spec['kind'] == 'thread':
        srv.run_in_thread()
        srv._run_thread.join()
    else:
        srv.run_forever()


def third_main(p, spec):
    tp = p.env.import_('teleprox')
    srv = tp.RPCServer()
    srv['user'] = p.env.import_('simuser')
    p.world.mail.put('addr:T', srv.address)
    srv.run_forever()


def unpack(shape, r):
    try:
        if shape == 'dict':
            return [r[a] for a in sorted(r)]
        if shape == 'deep':
            return [x['v'][0] for x in r]
        return list(r or ())
    except Exception as e:
        return [repr(e)] * 4


class Client:
    def __init__(self, p, spec, c):
        self.p, self.k, self.world, self.spec, self.c = p, p.k, p.world, spec, c
        self.h = {}         # handle -> proxy
        self.tainted = set()    # references that frames of failed calls may still hold
        self.meta = {}      # handle -> [ref key, tag, generation]

    def connect(self):
        tp = self.p.env.import_('teleprox')
        for i in range(100):
            try:
                self.S = tp.RPCClient.get_client(self.world.mail.get('addr:S'))
                self.T = tp.RPCClient.get_client(self.world.mail.get('addr:T'))
                self.user, self.tuser = self.S['user'], self.T['user']
                self.gen = self.world.mail.get('gen')
                return
            except (TimeoutError, ConnectionRefusedError, RuntimeError):
                self.p.env.import_('time').sleep(0.05)
        raise RuntimeError('cannot connect')

    def op(self, kind, fn, **kw):
        t0 = self.k.now
        r = lib.guarded(self.world, fn)
        v = r[1] if r[0] == 'ok' else None
        shown = 'bool:%s' % v if kind == 'eq' else '%d' % len(v or ()) if kind == 'make_many' else v if isinstance(v, (str, int, list, type(None))) else type(v).__name__
        self.k.record('ref', who=self.c['name'], op=kind, ok=r[0] == 'ok', val=shown if r[0] == 'ok' else r[1],
                      err=None if r[0] == 'ok' else r[2][-200:], t0=t0, **kw)
        if r[0] != 'ok':
            self.tainted.update((kw.get('key'), kw.get('key2')))
        if r[0] != 'ok' and ('already disconnected' in r[2] or r[1] in ('TimeoutError', 'ConnectionRefusedError')):
            if self.spec.get('restart'):
                self.connect()
        return v

    def acquired(self, h, v, tag):
        if type(v).__name__ == 'ObjectProxy':
            key = '%s.%s' % (self.c['name'], h)
            self.h[h] = v
            self.meta[h] = [key, tag, self.gen]
            return key

    def run(self):
        self.connect()
        for o in self.c['ops']:
            self.step(o)
        if self.c['end'] == 'delete':
            for h in list(self.h):
                self.step({'op': 'delete', 'h': h, 'how': 'delete'})
        self.k.record('client_end', who=self.c['name'])

    def step(self, o):
        kind = o['op']
        to = {'_timeout': 30.0}
        if kind == 'sleep':
            return self.p.env.import_('time').sleep(o['dt'])
        if kind == 'make':
            gen0 = self.gen
            if o['how'] == 'async':
                f = lambda: self.user.make_obj(o['tag'], o['keep'], _sync='async').result(30.0)
            else:
                f = lambda: self.user.make_obj(o['tag'], o['keep'], **to)
            t0 = self.k.now
            v = self.op('make', f, tag=o['tag'], keep=o['keep'])
            key = self.acquired(o['h'], v, o['tag'])
            if key:
                self.k.record('acq', key=key, tag=o['tag'], gen=gen0, t0=t0)
            return
        if kind == 'make_many':
            gen0 = self.gen
            t0 = self.k.now
            r = self.op('make_many', lambda: self.user.make_many(o['tags'], o['shape'], **to), tag=o['tags'][0])
            for h, tag, v in zip(o['hs'], o['tags'], unpack(o['shape'], r)):
                self.k.record('ref', who=self.c['name'], op='make', ok=r is not None, val=type(v).__name__, err='', t0=t0,
                              tag=tag, keep=False)
                key = self.acquired(h, v, tag)
                if key:
                    self.meta[h][2] = gen0
                    self.k.record('acq', key=key, tag=tag, gen=gen0, t0=t0)
            return
        if kind == 'get_kept':
            t0 = self.k.now
            v = self.op('get_kept', lambda: self.user.get_kept(o['tag'], **to), tag=o['tag'])
            key = self.acquired(o['h'], v, o['tag'])
            if key:
                self.k.record('acq', key=key, tag=o['tag'], gen=self.gen, t0=t0)
            return
        if kind == 'unkeep':
            return self.op('unkeep', lambda: self.user.unkeep(o['tag'], **to), tag=o['tag'])
        if kind == 'fetch':
            v = self.op('fetch', lambda: self.tuser.get_stash(o['name'], **to), name=o['name'])
            src = self.world.ctx.setdefault('shares', {}).get(o['name'])
            if type(v).__name__ == 'ObjectProxy' and src:
                self.h[o['h']] = v
                self.meta[o['h']] = list(src)
            return
        p = self.h.get(o['h'] if kind != 'again' else o['of'])
        if p is None:
            return
        key, tag, gen = self.meta[o['h'] if kind != 'again' else o['of']]
        info = {'key': key, 'tag': tag, 'gen': gen}
        if kind == 'use':
            how = o['how']
            exp = tag
            if how == 'who':
                f = lambda: p.who(**to)
            elif how == 'async':
                f = lambda: p.who(_sync='async').result(30.0)
            elif how == 'arg':
                f = lambda: self.user.who_of(p, **to)
            elif how == 'args':
                def f():
                    r = self.user.who_of_all([p, {'k': p}, (p, [p])], **to)
                    return tag if r == [tag] * 4 else r
            elif how == 'attr':
                if tag.endswith('/i'):
                    return
                exp = tag + '/i'
                f = lambda: p.inner.who(**to)
            elif how == 'copy':
                f = lambda: p._copy().who(**to)
            elif how == 'value':
                f = lambda: p.tag._get_value()
            else:
                def f():
                    self.tuser.put_stash('tmp' + key, p, **to)
                    return self.tuser.use_stash('tmp' + key, _timeout=60.0)
            self.op('use', f, exp=exp, how=how, **info)
        elif kind == 'again':
            how = o['how']
            ntag = tag
            t0 = self.k.now
            if how == 'me':
                f = lambda: p.me(**to)
            elif how == 'echo':
                f = lambda: self.user.echo(p, **to)
            elif how == 'transfer':
                f = lambda: self.S.transfer(p)
            else:
                if tag.endswith('/i'):
                    return
                ntag = tag + '/i'
                f = lambda: p.inner._undefer()
            gen0 = gen        # (its server may be newer than the one this client last knew)
            v = self.op('again', f, how=how, **info)
            nk = self.acquired(o['h'], v, ntag)
            if nk:
                self.meta[o['h']][2] = gen0
                self.k.record('acq', key=nk, tag=ntag, gen=gen0, t0=t0)
                self.op('use', lambda: v.who(**to), exp=ntag, how='fresh', key=nk, tag=ntag, gen=gen0)
        elif kind == 'share':
            v = self.op('share', lambda: [self.tuser.put_stash(o['name'], p, **to), True][1], name=o['name'], **info)
            if v:
                self.world.ctx.setdefault('shares', {})[o['name']] = (key, tag, gen)
        elif kind in ('same', 'eq'):
            q = self.h.get(o['of'])
            if q is not None:
                k2, tag2, gen2 = self.meta[o['of']]
                self.op(kind, (lambda: p.same(q, **to)) if kind == 'same' else (lambda: (p == q) is True), tag2=tag2, key2=k2, gen2=gen2, **info)
        elif kind == 'delete':
            how = o['how']
            if how.startswith('auto') and key in self.tainted:
                how = 'delete'
            if how == 'drop':
                # without auto_delete nothing happens
                self.h.pop(o['h'])
                return
            if how == 'auto':
                p._set_proxy_options(auto_delete=True)
                self.h.pop(o['h'])
                box = [p]
                del p

                def f():
                    box.clear()
                    return True
                # __del__ never raises: follow it with a ping to know that the delete has happened
                self.op('delete', f, how=how, **info)
                return
            if how.startswith('auto_'):
                # whatever was derived from the proxy keeps the reference alive
                if how == 'auto_attr2' and tag.endswith('/i'):
                    how = 'auto_attr'
                p._set_proxy_options(auto_delete=True)
                self.h.pop(o['h'])
                exp = tag
                if how == 'auto_attr':
                    box = [p.who]
                elif how == 'auto_attr2':
                    box = [p.inner.who]
                    exp = tag + '/i'
                else:
                    box = [p._copy()]
                del p
                self.op('use', lambda: box[0].who(**to) if how == 'auto_copy' else box[0](**to), exp=exp, how=how, **info)
                if key in self.tainted:
                    how = 'maybe'

                def f():
                    box.clear()
                    return True
                self.op('delete', f, how=how, **info)
                return
            if how == 'delete':
                self.op('delete', lambda: [p._delete(), True][1], how=how, **info)
            elif how == 'delete2':
                self.op('delete', lambda: [p._delete(), True][1], how=how, **info)
                self.op('delete', lambda: [p._delete(), True][1], how=how, second=True, **info)
            elif how == 'async':
                self.op('delete', lambda: [p._delete(sync='async'), True][1], how='async', **info)
                self.op('sync', lambda: self.S.ping(timeout=30.0) and True)
            else:
                self.op('delete', lambda: [p._delete(sync='off'), True][1], how='off', **info)
                self.op('sync', lambda: self.S.ping(timeout=30.0) and True)


def client_main(p, spec, c):
    world, k = p.world, p.k

    def body():
        try:
            Client(p, spec, c).run()
        except HarnessError:
            raise
        except BaseException as e:
            k.record('client_crashed', who=c['name'], err=repr(e)[:300], tb=lib.tb())
        finally:
            world.mail.incr('client_done')
    if c.get('thread'):
        pass
    body()


def setup(world, spec):
    lib.setup_common(world, spec)
    h = world.hosts[0]
    addr = 'tcp://127.0.0.1:7001' if spec.get('restart') else 'tcp://127.0.0.1:*'
    world.start_user(h, 'S', lambda p: owner_main(p, spec, 0, addr))
    world.start_user(h, 'T', lambda p: third_main(p, spec))
    if spec.get('threads'):
        def many(p):
            th = p.env.import_('threading')
            ts = [th.Thread(target=client_main, args=(p, spec, c)) for c in spec['clients']]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        world.start_user(h, 'C', many)
    else:
        for c in spec['clients']:
            world.start_user(h, c['name'], lambda p, c=c: client_main(p, spec, c))
    rs = spec.get('restart')
    k = world.k

    def restart():
        world.mail.get('addr:S')
        k.park(k.now + int(rs['t'] * SEC), on='sleep')
        k.record('restart', how=rs['how'])
        if rs['how'] == 'kill':
            k.fault('process_kill')
            world.ctx['S'].die(-9, killed=True)
        else:
            world.start_user(h, 'K', closer)
        world.start_user(h, 'S2', lambda p: owner_main(p, spec, 1, addr))

    def closer(p):
        tp = p.env.import_('teleprox')
        for i in range(50):
            try:
                tp.RPCClient(world.mail.get('addr:S')).close_server(timeout=10)
                break
            except TimeoutError:
                pass

    def finale(p):
        """After everybody is done: a garbage collection in the owner frees what only cycles hold."""
        tp = p.env.import_('teleprox')
        for i in range(50):
            try:
                c = tp.RPCClient(world.mail.get('addr:S'))
                break
            except (TimeoutError, ConnectionRefusedError):
                p.env.import_('time').sleep(0.1)
        c['user'].collect_garbage(_timeout=60.0)
        c['user'].echo(1, _timeout=60.0)
        k.record('collected', gen=world.mail.get('gen'))
        world.k.finish('done')

    def coordinator():
        world.mail.wait_count('client_done', len(spec['clients']))
        if rs:
            world.mail.wait(lambda: world.mail.box.get('gen') == 1)
        world.start_user(h, 'Z', finale)
        world.mail.wait(lambda: False)
    if rs:
        k.spawn(None, restart, 'restart')
    k.spawn(None, coordinator, 'coordinator')


# ---- oracle ---------------------------------------------------------------------------
def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    H = k.history
    restart_t = next((h['t'] for h in H if h['k'] == 'restart'), None)
    refs = {}       # key -> {tag, gen, acq, del0, del1}
    kept = {}       # tag -> [t0 of make, unkeep start or None]
    fail_net = bool(spec.get('restart'))
    lastsync = {}

    # pass 1: when does each reference certainly / possibly exist
    pend = {}       # who -> deletes whose completion is not known yet
    made = {}
    for h in H:
        if h['k'] == 'acq':
            refs[h['key']] = {'tag': h['tag'], 'gen': h['gen'], 't0': h['t0'], 't1': h['t'], 'd0': None, 'd1': None}
        elif h['k'] == 'ref':
            who = h['who']
            if h['op'] == 'delete':
                r = refs.get(h['key'])
                if r is not None:
                    r['d0'] = h['t0'] if r['d0'] is None else min(r['d0'], h['t0'])
                if r is not None and not h.get('second'):
                    if h['ok'] and h['how'] in ('delete', 'delete2', 'auto', 'auto_attr', 'auto_attr2', 'auto_copy'):
                        r['d1'] = h['t'] if r['d1'] is None else r['d1']
                    elif h['ok'] and h['how'] != 'maybe':
                        pend.setdefault(who, []).append(r)
            elif h['ok'] and h['op'] == 'sync':
                for r in pend.pop(who, []):
                    r['d1'] = h['t'] if r['d1'] is None else r['d1']
            if h['op'] == 'make':
                made[h['tag']] = h
                if h['keep']:
                    kept[h['tag']] = None

    released = set()        # no longer kept by the owner, for sure
    for h in H:
        if h['k'] == 'ref' and h['op'] == 'unkeep' and h['tag'] in kept:
            m = made[h['tag']]
            if h['t'] >= m['t0']:
                kept[h['tag']] = min(h['t0'], kept[h['tag']] or h['t0'])
                if h['t0'] >= m['t'] and h['ok']:
                    released.add(h['tag'])

    def stale(h, gen):
        """The server this reference belongs to was (possibly) gone."""
        return restart_t is not None and gen == 0 and h['t'] >= restart_t

    for h in H:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        if h['k'] != 'ref':
            continue
        r = refs.get(h.get('key'))
        if h['op'] in ('use', 'again', 'same', 'share') and r is not None:
            what = '%s %s via %s by %s at %.4f' % (h['op'], h.get('how', ''), h['key'], h['who'], h['t'] / SEC)
            if h['op'] == 'use' and h['ok'] and h['val'] != h['exp']:
                v('wrong-object', '%s reached %r instead of %r' % (what, h['val'], h['exp']))
            if h['op'] == 'share':
                continue
            r2 = refs.get(h.get('key2'), r) if h['op'] == 'same' else r
            rr = [r, r2]
            dead = any(x['d1'] is not None and x['d1'] <= h['t0'] for x in rr)
            maybe = any(x['d0'] is not None and x['d0'] <= h['t'] for x in rr)
            gens = [h['gen'], h.get('gen2', h['gen'])]
            st = any(stale(h, g) for g in gens)
            if h['ok'] and dead:
                v('dead-ref-worked', '%s succeeded although the reference was deleted' % what)
            elif h['ok'] and any(g == 0 and restart_t is not None and owner_up(H, 1) is not None and h['t0'] > owner_up(H, 1)
                                 for g in gens):
                v('stale-ref-worked', '%s succeeded although its server is gone: %r' % (what, h['val']))
            elif not h['ok'] and not maybe and not st and not (restart_t is not None and h['t'] >= restart_t):
                v('live-ref-failed', '%s failed: %s %s' % (what, h['val'], h['err']))
            if h['op'] == 'same' and h['ok'] and h['val'] != [h['tag'] == h['tag2'], h['tag2']]:
                v('wrong-object', '%s: same(%s, %s) -> %r' % (what, h['tag'], h['tag2'], h['val']))
        elif h['op'] == 'delete' and r is not None:
            if not h.get('second') and not h['ok'] and h['how'] in ('delete', 'delete2') and not stale(h, h['gen']):
                others = r['d0'] < h['t0']
                shared = sum(1 for x in H if x['k'] == 'ref' and x['op'] == 'delete' and x.get('key') == h['key'])
                if not others and shared == 1 and restart_t is None:
                    v('delete-failed', 'deleting %s failed: %s %s' % (h['key'], h['val'], h['err']))
        elif h['op'] == 'eq' and h['ok'] and h['val'] is not None:
            if (h['val'] == 'bool:True') != (h['tag'] == h['tag2'] and h['gen'] == h['gen2']):
                v('wrong-object', 'proxies %s (%s) and %s (%s) compared as %s' % (h['key'], h['tag'], h['key2'], h['tag2'],
                                                                                  h['val']))
        elif h['op'] in ('make', 'make_many', 'get_kept', 'unkeep', 'sync', 'fetch') and not h['ok'] and not fail_net:
            if not (h['op'] == 'fetch' and 'KeyError' in (h['err'] or '')):
                v('live-ref-failed', '%s %s by %s failed: %s %s' % (h['op'], h.get('tag', ''), h['who'], h['val'], h['err']))
        if h['op'] == 'make' and h['ok'] and h['val'] != 'ObjectProxy':
            v('wrong-object', 'a new object %s arrived as %r' % (h['tag'], h['val']))
        if h['op'] == 'get_kept' and h['ok'] and h['val'] != 'ObjectProxy' and h['val'] is not None:
            v('wrong-object', 'get_kept returned %r' % h['val'])

    # pass 2: objects are released neither too early nor never
    freed = {}
    for h in H:
        if h['k'] == 'obj_freed' and h['tag'] not in freed:
            freed[h['tag']] = h
    byt = {}
    for key, r in refs.items():
        byt.setdefault(r['tag'], []).append((key, r))
    pids = {h['pid']: h['gen'] for h in H if h['k'] == 'owner_up'}
    for tag, f in freed.items():
        if f['pid'] not in pids:
            continue
        own = byt.get(tag, []) + (byt.get(tag[:-2], []) if tag.endswith('/i') else [])
        for key, r in own:
            if r['t1'] <= f['t'] and (r['d0'] is None or r['d0'] > f['t']) and not stale(f, r['gen']):
                v('freed-early', '%s was released at %.4f while reference %s existed' % (tag, f['t'] / SEC, key))
        base = tag[:-2] if tag.endswith('/i') else tag
        if base in kept and (kept[base] is None or kept[base] > f['t']) and not stale(f, 0):
            v('freed-early', '%s was released although its owner still uses it' % tag)
    if k.outcome == 'done' and restart_t is None:
        for h in H:
            if h['k'] == 'obj_new' and h['tag'] not in freed:
                tag = h['tag']
                base = tag[:-2] if tag.endswith('/i') else tag
                if base in kept and base not in released:
                    continue
                own = byt.get(tag, []) + (byt.get(base, []) if base != tag else [])
                mk = made.get(base)
                if mk is None or not mk['ok'] or any(r['d1'] is None for _, r in own):
                    continue
                if any(x['k'] == 'ref' and x['op'] in ('again', 'get_kept', 'fetch') and not x['ok'] for x in H):
                    continue
                v('never-freed', '%s is still held by the server although all its references were deleted: %r' % (
                    tag, [key for key, _ in own]))
    return V


def owner_up(H, gen_):
    for h in H:
        if h['k'] == 'owner_up' and h['gen'] == gen_:
            return h['t']


def nontrivial(world, spec):
    return any(h['k'] == 'obj_freed' for h in world.k.history)
