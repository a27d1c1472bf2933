"""Proxies behave like the objects behind them."""
import copy
import importlib
import json
import operator

from dst import lib, values
from dst.kernel import SEC, HarnessError

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'generated programs over proxies (deferred attribute chains, calls by every sync and return mode, items, ' \
       'operators, assignment, options, copies for other threads) in 1-4 client threads against 1-2 servers (main ' \
       'thread, worker thread, Qt) x delays, stalls, clock jumps; every step is also run on local twins, which is the ' \
       'reference; non-trivial: >= 8 steps compared, one of them returning an object'
CLASSES = None

OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '<<': 'lshift',
       '>>': 'rshift', '&': 'and_', '|': 'or_', '^': 'xor'}
CMP = {'==': 'eq', '!=': 'ne', '<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge'}
IOPS = ['+', '-', '*', '/', '//', '**', '<<', '>>', '&', '|', '^']


# ---- generation ---------------------------------------------------------------------
VALS = [0, 1, -3, 2.5, 'v', 'é', None, True, [1, 'z'], {'k': 1}, []]
PATHS = [[], [], ['child'], ['child', 'child'], ['child'], ['num'], ['child', 'num']]


def gen_arg(rng, objs, nest=True):
    r = rng.random()
    if r < 0.45:
        return {'val': rng.choice(VALS)}
    if r < 0.85 or not nest:
        return {'slot': rng.choice(objs), 'path': rng.choice(PATHS)}
    if r < 0.93:
        return {'list': [gen_arg(rng, objs, False) for _ in range(2)]}
    return {'dict': {'k': gen_arg(rng, objs, False)}}


def gen_ops(rng, n, threads):
    """Slots hold objects: slot 0 is the root node. Slots may turn out to hold anything; steps that make no sense fail in
    the same way on both sides."""
    ops = []
    objs = [0, 0]
    nslots = 1
    for _ in range(n):
        r = rng.random()
        s, path = rng.choice(objs), rng.choice(PATHS)
        op = None
        if r < 0.34:
            m = rng.choice(['get', 'get', 'me', 'both', 'same', 'make', 'make', 'adopt', 'bump', 'append', 'call', 'method',
                            'fail', 'thing', 'thing', '__call__', 'cls', 'sta', 'nosuch'])
            args, kw = [], {}
            if m in ('get', '__call__'):
                args = [gen_arg(rng, objs) for _ in range(rng.randint(0, 3))]
                kw = {k: gen_arg(rng, objs) for k in rng.sample(['a', 'timeout', 'obj', 'sync', 'self_'], rng.randint(0, 2))}
            elif m in ('both', 'same'):
                args = [gen_arg(rng, objs)]
            elif m == 'adopt':
                args = [{'slot': rng.choice(objs), 'path': rng.choice(PATHS)}]
                if rng.random() < .3:
                    kw = {'name': {'val': 'friend'}}
            elif m == 'make':
                kw = {'name': {'val': 'm%d' % len(ops)}, 'depth': {'val': rng.choice([0, 1])}}
            elif m == 'bump':
                args = [{'val': rng.choice([1, 5])}]
            elif m == 'append':
                args = [gen_arg(rng, objs, False)]
            elif m == 'call':
                args = [{'slot': rng.choice(objs), 'path': [rng.choice(['bump', 'me', 'get', 'fail'])]}]
            elif m == 'method':
                args = [{'val': rng.choice(['bump', 'get', 'x', 'child', 'none_such'])}]
            elif m == 'fail':
                args = [{'val': rng.choice(['oops', 'key', 'attr', 'stop', 'index'])}]
            elif m == 'thing':
                args = [{'val': rng.choice(['list', 'dict', 'str', 'int', 'none', 'self', 'num', 'class', 'tuple',
                                            'method', 'set'])}]
            elif m == 'sta':
                args, kw = [gen_arg(rng, objs)], rng.choice([{}, {'b': {'val': 7}}])
            op = {'op': 'call', 's': s, 'path': path + ([m] if m != '__call__' else []), 'args': args, 'kw': kw,
                  'sync': rng.choice(['sync', 'sync', 'sync', 'async', 'off']),
                  'rt': rng.choice(['auto', 'auto', 'auto', 'proxy', 'value']), 'via': rng.choice(['kw', 'kw', 'opt', 'parent', 'optcopy', 'parentcopy'])}
            if op['sync'] == 'async':
                op['late'] = rng.random() < .5
        elif r < 0.50:
            op = {'op': 'get', 's': s, 'path': path + [rng.choice(['x', 'x', 'name', 'data', 'items', 'num', 'child', 'prop',
                                                                  'broken', '_hidden', 'friend', 'bump', 'nosuch', 'kind'])],
                  'how': rng.choice(['undefer', 'value', 'eager', 'eager', 'copy', 'undefer_value', 'undefer_proxy', 'pickle',
                                     'shallow'])}
        elif r < 0.60:
            op = {'op': 'bin', 'f': rng.choice(list(OPS)), 's': s, 'path': path + ['num'], 'b': gen_arg(rng, objs, False),
                  'refl': rng.random() < .3}
            if rng.random() < 0.1:
                op['b'] = {'val': 'refuse'}
        elif r < 0.68:
            op = {'op': 'cmp', 'f': rng.choice(list(CMP)), 's': s, 'path': path, 'b': gen_arg(rng, objs, False)}
        elif r < 0.73:
            op = {'op': 'iop', 'f': rng.choice(IOPS), 's': s, 'path': [], 'b': gen_arg(rng, objs, False)}
        elif r < 0.79:
            op = {'op': 'setattr', 's': s, 'path': path, 'name': rng.choice(['x', 'friend', 'name', 'prop', '_hidden']),
                  'b': gen_arg(rng, objs)}
            if op['name'] == 'name':
                op['b'] = {'val': rng.choice(['new', 'ü', ''])}
        elif r < 0.84:
            op = {'op': 'getitem', 's': s, 'path': path + rng.choice([[], [], ['data'], ['items']]), 'key': rng.choice(['a', 'b', 'zz', 0, 1, 9])}
        elif r < 0.88:
            op = {'op': 'setitem', 's': s, 'path': path + rng.choice([[], [], ['data'], ['items']]), 'key': rng.choice(['a', 'n', 0]),
                  'b': gen_arg(rng, objs)}
        elif r < 0.92:
            op = {'op': rng.choice(['len', 'len', 'str', 'repr', 'strsafe', 'hash']), 's': s, 'path': path}
        elif r < 0.95:
            op = {'op': 'thread', 's': s, 'path': path, 'b': gen_arg(rng, objs, False)}
        elif r < 0.96:
            op = {'op': 'import', 's': 0, 'name': rng.choice(['json', 'json.decoder', 'os.path', 'concurrent.futures', 'logging.handlers',
                                                              'xml.etree.ElementTree', 'json.nothing', 'nothing_at_all.sub', 'simobj']),
                  'sync': rng.choice(['sync', 'async']), 'rt': rng.choice([None, 'proxy'])}
        elif r < 0.97:
            op = {'op': 'badopt', 's': s} if rng.random() < .4 else \
                {'op': 'timeout', 's': s, 'path': path, 'via': rng.choice(['kw', 'opt', 'parent', 'copy', 'over'])}
        else:
            op = {'op': 'sleep', 'dt': rng.choice([0.0, 0.01, 0.2])}
        if op['op'] in ('call', 'get', 'bin', 'getitem', 'cmp') and rng.random() < .6:
            op['dst'] = nslots
            objs.append(nslots)
            nslots += 1
        ops.append(op)
    return ops


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]
    servers = [{'name': 'S%d' % j, 'kind': rng.choice(['main', 'main', 'thread', 'qt'])} for j in range(rng.choice([1, 1, 2]))]
    clients = []
    for c in range(rng.choice([1, 1, 2])):
        nt = rng.choice([1, 1, 2])
        clients.append({'name': 'C%d' % c, 'threads': [
            {'server': rng.choice(servers)['name'], 'serializer': rng.choice(['msgpack', 'msgpack', 'json']),
             'local': rng.random() < .3, 'ops': gen_ops(rng, rng.choice([6, 12, 20]), nt)} for _ in range(nt)]})
    faults = []
    if rng.random() < 0.3:
        t = 0.2
        for _ in range(rng.choice([1, 2])):
            t += rng.choice([0.003, 0.02, 0.1])
            if rng.random() < 0.6:
                faults.append({'t': round(t, 4), 'kind': 'stall', 'dur': rng.choice([0.02, 0.3]),
                               'proc': rng.choice([s['name'] for s in servers] + [c['name'] for c in clients])})
            else:
                faults.append({'t': round(t, 4), 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-3600, 3600])})
    return {'cfg': cfg, 'servers': servers, 'clients': clients, 'faults': faults}


def describe(spec):
    return {'servers': [s['kind'] for s in spec['servers']], 'first': spec['clients'][0]['threads'][0]['ops'][:2]}


def shrink(spec):
    from dst.driver import default_shrink
    yield from default_shrink(spec)
    for ci, c in enumerate(spec['clients']):
        for ti, t in enumerate(c['threads']):
            if len(c['threads']) > 1:
                s = json.loads(json.dumps(spec))
                del s['clients'][ci]['threads'][ti]
                yield s
            n = len(t['ops'])
            step = n
            while step >= 1:
                for a in range(0, n, step):
                    s = json.loads(json.dumps(spec))
                    del s['clients'][ci]['threads'][ti]['ops'][a:a + step]
                    yield s
                step //= 2


# ---- programs -----------------------------------------------------------------------
def server_main(p, spec, s):
    tp = p.env.import_('teleprox')
    objs = p.env.import_('simobj')
    if s['kind'] == 'qt':
        qt = p.env.import_('teleprox.qt')
        app = qt.QApplication([])
        p.env.import_('teleprox.log').log_exceptions()
        srv = tp.QtRPCServer()
        srv['objs'] = objs
        srv.run_forever()
        p.world.mail.put('addr:' + s['name'], srv.address)
        app.exec_()
        return
    srv = tp.RPCServer()
    srv['objs'] = objs
    p.world.mail.put('addr:' + s['name'], srv.address)
    if s['kind'] == 'thread':
        srv.run_in_thread()
        srv._run_thread.join()
    else:
        srv.run_forever()


class Missing(Exception):
    pass


class Run:
    def __init__(self, p, spec, c, ti, th):
        self.p, self.k, self.world, self.th = p, p.k, p.world, th
        self.who = '%s.%d' % (c['name'], ti)
        self.json = th['serializer'] == 'json'

    def rec(self, kind, **kw):
        return self.k.record(kind, who=self.who, **kw)

    def run(self):
        try:
            self.body()
        except HarnessError:
            raise
        except BaseException as e:
            self.rec('client_crashed', err=repr(e)[:900], tb=lib.tb())
        finally:
            self.world.mail.incr('client_done')

    def body(self):
        p = self.p
        self.tp = tp = p.env.import_('teleprox')
        self.local = p.env.import_('simobj')
        addr = self.world.mail.get('addr:' + self.th['server'])
        for i in range(30):
            try:
                self.client = tp.RPCClient(addr, serializer=self.th['serializer'], start_local_server=self.th['local'])
                break
            except TimeoutError:
                p.env.import_('time').sleep(0.05)
        self.mod = self.client['objs']
        self.rspace = self.mod.new_space(self.who)
        self.rslots = {0: self.rspace.root._undefer()}
        self.lspace = self.local.new_space(self.who)
        self.lslots = {0: self.lspace.root}
        self.pending = []
        self.hashes = {}
        for oi, op in enumerate(self.th['ops']):
            self.step(oi, op)
        self.flush()
        # both worlds are the same in the end
        a = lib.guarded(self.world, self.mod.show, self.rspace.root, 6)
        b = ('ok', self.local.show(self.lspace.root, 6))
        n = lib.guarded(self.world, lambda: self.rspace.n._get_value())
        self.rec('end', same=values.canon(a[1], self.json) == values.canon(b[1], self.json) and n[1] == self.lspace.n,
                 got=[repr(a[1])[:1500], n[1]], want=[repr(b[1])[:1500], self.lspace.n])

    # -- both sides
    def arg(self, a, slots):
        if 'slot' in a:
            o = slots.get(a['slot'], Missing)
            if o is Missing:
                raise Missing(a['slot'])
            for x in a.get('path', ()):
                o = getattr(o, x)
            return o
        if 'list' in a:
            return [self.arg(x, slots) for x in a['list']]
        if 'dict' in a:
            return {k: self.arg(x, slots) for k, x in a['dict'].items()}
        return json.loads(json.dumps(a['val']))

    def obj(self, op, slots):
        return self.arg({'slot': op['s'], 'path': op['path']}, slots)

    def local_do(self, op):
        """The reference."""
        kind = op['op']
        o = self.obj(op, self.lslots)
        if kind == 'call':
            f = o
            return f(*[self.arg(a, self.lslots) for a in op['args']], **{k: self.arg(a, self.lslots) for k, a in op['kw'].items()})
        if kind == 'get':
            return o
        return self.common(kind, op, o, self.lslots)

    def common(self, kind, op, o, slots):
        if kind in ('bin', 'cmp'):
            f = getattr(operator, (OPS if kind == 'bin' else CMP)[op['f']])
            b = self.arg(op['b'], slots)
            return f(b, o) if op.get('refl') else f(o, b)
        if kind == 'iop':
            f = getattr(operator, 'i' + OPS[op['f']].rstrip('_'))
            return f(o, self.arg(op['b'], slots))
        if kind == 'setattr':
            setattr(o, op['name'], self.arg(op['b'], slots))
            return None
        if kind == 'getitem':
            return o[op['key']]
        if kind == 'setitem':
            o[op['key']] = self.arg(op['b'], slots)
            return None
        if kind == 'len':
            return len(o)
        raise HarnessError(kind)

    def is_proxy(self, x):
        return isinstance(x, self.tp.ObjectProxy)

    def usable(self, op):
        """Only what is promised: operators that the object itself has, objects on the left of values."""
        def l(a):
            try:
                return self.arg(a, self.lslots)
            except Exception:
                return None
        o = l({'slot': op['s'], 'path': op.get('path', [])})
        if op['op'] not in ('call', 'get', 'thread') and (isinstance(o, type) or isinstance(l(op.get('b', {'val': 0})), type)):
            return False        # (operators of a class are not those of its instances)
        if op['op'] == 'bin' and op.get('refl') and op['f'] == '%' and isinstance(op['b'].get('val'), str):
            return False        # (formats)
        if op['op'] in ('bin', 'iop'):
            if op['op'] == 'bin' and op.get('refl') and 'slot' in op['b']:
                return False
            return isinstance(o, self.local.Num)
        return True

    def step(self, oi, op):
        kind = op['op']
        if kind == 'sleep':
            self.p.env.import_('time').sleep(op['dt'])
            return
        for a in [{'slot': op['s']}, op.get('b', {})] + op.get('args', []) + list(op.get('kw', {}).values()):
            for x in [a] + a.get('list', []) + list(a.get('dict', {}).values()):
                if 'slot' in x and x['slot'] not in self.rslots:
                    return
        if not self.is_proxy(self.rslots[op['s']]) or not self.usable(op):
            return
        self.at = oi
        if kind == 'badopt':
            r = lib.guarded(self.world, self.rslots[op['s']]._set_proxy_options, sync='async', timeout=0.001, no_such_option=1)
            self.rec('badopt', r=r[:2])
            return
        if kind in ('str', 'repr', 'strsafe', 'hash'):
            self.text(op)
            return
        if kind == 'timeout':
            self.timeout(op)
            return
        if kind == 'thread':
            self.thread(op)
            return
        if kind == 'import':
            self.imported(op)
            return
        # asynchronous calls whose result was not looked at yet were made before this one
        want = lib.guarded(self.world, self.local_do, op)
        if want[0] == 'ok':
            want = ('ok', self.snap(want[1]), want[1])
        if kind == 'call' and op['sync'] != 'sync':
            got = lib.guarded(self.world, self.remote_call, op)
            if op['sync'] == 'off':
                self.rec('off', at=oi, r=[got[0], repr(got[1])])
                return
            if got[0] == 'ok':
                if op['late']:
                    # (looked at later: what an object looks like then is not comparable)
                    self.pending.append((oi, op, got[1], want))
                    return
                got = lib.guarded(self.world, got[1].result, 30.0)
        elif kind == 'call':
            got = lib.guarded(self.world, self.remote_call, op)
        elif kind == 'get':
            got = lib.guarded(self.world, self.remote_get, op)
        else:
            got = lib.guarded(self.world, lambda: self.common(kind, op, self.obj(op, self.rslots), self.rslots))
        self.compare(oi, op, got, want)

    def flush(self):
        for oi, op, fut, want in self.pending:
            got = lib.guarded(self.world, fut.result, 30.0)
            self.compare(oi, op, got, want, True)
        self.pending = []

    def remote_call(self, op):
        base = self.rslots[op['s']]
        kw = {k: self.arg(a, self.rslots) for k, a in op['kw'].items()}
        args = [self.arg(a, self.rslots) for a in op['args']]
        opts = {'sync': op['sync'], 'return_type': op['rt']}
        if op['via'].startswith('parent') and op['path']:
            base = base._copy()
            base._set_proxy_options(**opts)
            if op['via'] == 'parentcopy':
                base = base._copy()
            f = base
            for x in op['path']:
                f = getattr(f, x)
        else:
            f = base
            for x in op['path']:
                f = getattr(f, x)
            if op['via'].startswith('opt') or not op['path'] and op['via'].startswith('parent'):
                f = f._copy()
                f._set_proxy_options(**opts)
                if op['via'] == 'optcopy':
                    f = f._copy()
            else:
                kw['_sync'] = op['sync']
                kw['_return_type'] = op['rt']
        return f(*args, **kw)

    def remote_get(self, op):
        f = self.rslots[op['s']]
        for x in op['path'][:-1]:
            f = getattr(f, x)
        if op['how'] == 'eager':
            f = f._copy()
            f._set_proxy_options(defer_getattr=False)
            return getattr(f, op['path'][-1])
        f = getattr(f, op['path'][-1])
        if op['how'] == 'copy':
            return f._copy()._undefer()
        if op['how'] == 'pickle':
            pickle = self.p.env.import_('pickle')
            return pickle.loads(pickle.dumps(f))._undefer()
        if op['how'] == 'shallow':
            return copy.copy(f)._undefer()
        if op['how'] == 'value':
            return f._get_value()
        if op['how'].startswith('undefer_'):
            return f._undefer(return_type=op['how'][8:])
        return f._undefer()

    def imported(self, op):
        """A module is imported in the server's process under its whole name."""
        kw = {'return_type': op['rt']} if op['rt'] else {}

        def there():
            m = self.client._import(op['name'], sync=op['sync'], **kw)
            if op['sync'] == 'async':
                m = m.result(10)
            return [self.is_proxy(m), m.__name__._get_value()]
        got = lib.guarded(self.world, there)
        if 'nothing' in op['name']:
            ok = got[0] == 'exc' and getattr(got[3], 'type_str', None) == 'ModuleNotFoundError'
            want = 'ModuleNotFoundError'
        else:
            want = [True, op['name'] if op['name'] == 'simobj' else importlib.import_module(op['name']).__name__]
            ok = got[0] == 'ok' and got[1] == want
        self.rec('text', ok=ok, what='import', got=repr(got[:3])[:500], want=repr(want))

    def rt(self, op):
        if op['op'] == 'call':
            return op['rt']
        if op['op'] == 'get' and op['how'] in ('value', 'undefer_value'):
            return 'value'
        if op['op'] == 'get' and op['how'] == 'undefer_proxy':
            return 'proxy'
        return 'auto'

    def by_value(self, x):
        return x is None or isinstance(x, (bool, int, float, str, list, tuple, dict))

    def pure(self, x):
        if isinstance(x, (list, tuple)):
            return all(self.pure(y) for y in x)
        if isinstance(x, dict):
            return all(self.pure(y) for y in x.values())
        return x is None or isinstance(x, (bool, int, float, str))

    def snap(self, x):
        if isinstance(x, (list, tuple)):
            return type(x)(self.snap(y) for y in x)
        if isinstance(x, dict):
            return {k: self.snap(y) for k, y in x.items()}
        return x

    def compare(self, oi, op, got, want, late=False):
        rt = self.rt(op)
        ok, why = True, ''
        if want[0] == 'exc':
            name = getattr(got[3], 'type_str', None) or got[1] if got[0] == 'exc' else None
            ok = got[0] == 'exc' and (name == want[1] or name.endswith('.' + want[1]))
            if name == 'AttributeError' and want[1] == 'TypeError' and op['op'] != 'call':
                ok = True       # special method that the object does not have
            if not ok and op['op'] == 'cmp' and op['f'] == '==' and got[1] is True and op['b'] == {'slot': op['s'], 'path': op['path']}:
                ok = True       # the same deferred attribute
            why = 'should raise %s: %s' % (want[1], want[2][:100])
        elif got[0] == 'exc':
            # an object cannot travel by value
            ok = rt == 'value' and not self.pure(want[1])
            why = 'raised %s: %s' % (got[1], got[2][-700:])
        else:
            try:
                ok, why = self.match(got[1], want[1], rt, late)
            except RecursionError:
                raise HarnessError('cyclic value')
        self.rec('cmp', at=oi, op=op, ok=ok, why=why, got=[got[0], repr(got[1])[:300]], want=[want[0], repr(want[1])[:300]],
                 proxy=got[0] == 'ok' and self.is_proxy(got[1]))
        if op['op'] == 'iop':
            if got[0] == 'ok' and want[0] == 'ok':
                if self.is_proxy(got[1]):
                    self.rslots[op['s']], self.lslots[op['s']] = got[1], want[2]
                else:
                    self.rslots.pop(op['s'], None)
        if 'dst' in op and got[0] == 'ok' and want[0] == 'ok' and self.is_proxy(got[1]):
            self.rslots[op['dst']], self.lslots[op['dst']] = got[1], want[2]

    def match(self, got, want, rt, late=False):
        if rt == 'proxy':
            if not self.is_proxy(got):
                return False, 'a proxy was asked for'
        elif self.by_value(want):
            if isinstance(want, (list, tuple)):
                if not isinstance(got, (list, tuple)) or len(got) != len(want):
                    return False, 'sequences differ'
                for a, b in zip(got, want):
                    r = self.match(a, b, 'auto', late)
                    if not r[0]:
                        return r
                return True, ''
            if isinstance(want, dict):
                if not isinstance(got, dict) or sorted(map(str, got)) != sorted(map(str, want)):
                    return False, 'dicts differ'
                for k in want:
                    r = self.match(got[str(k) if self.json else k], want[k], 'auto', late)
                    if not r[0]:
                        return r
                return True, ''
            return values.canon(got, self.json) == values.canon(want, self.json), 'values differ'
        elif not self.is_proxy(got):
            return False, 'should be a proxy'
        r = lib.guarded(self.world, self.mod.show, got, 0 if late else 2)
        w = self.local.show(want, 0 if late else 2)
        if late and self.pure(want):
            return True, ''         # mutable builtins may have changed meanwhile
        if late and r[0] == 'ok' and r[1][:2] == w[:2]:
            return True, ''
        if r[0] != 'ok':
            return False, 'looking at the object: %s %s' % (r[1], r[2][-500:])
        return values.canon(r[1], self.json) == values.canon(w, self.json), 'object is %r, should be %r' % (r[1], w)

    # -- text and identity
    def text(self, op):
        kind = op['op']
        o = lib.guarded(self.world, self.obj, op, self.rslots)
        w = lib.guarded(self.world, self.obj, op, self.lslots)
        if o[0] != 'ok':
            self.rec('text', ok=False, what=kind, got=list(o[1:3]), want='')
            return
        o = o[1]
        n0 = len(self.k.history)
        if kind == 'hash':
            # equal proxies: same object, same hash; they find each other in dicts
            if w[0] != 'ok' or not isinstance(w[1], (self.local.Node, self.local.Num)):
                return
            p2 = self.rslots[op['s']]._copy()
            for x in op['path']:
                p2 = getattr(p2, x)
            d = {o: 1}
            got = [(o == p2) is True, hash(o) == hash(p2), d.get(p2) == 1, (o != p2) is False]
            if not op['path'] and isinstance(w[1], self.local.Node):
                q = o.me()
                got += [(q == o) is True, hash(q) == hash(o), (q != o) is False]
            self.rec('text', ok=all(got), what=kind, got=got, want='')
        elif kind == 'strsafe':
            a, b = lib.guarded(self.world, str, o), lib.guarded(self.world, repr, o)
            self.rec('text', ok=a[0] == 'ok' and b[0] == 'ok' and 'ObjectProxy' in b[1], what=kind, got=[a[1], b[1]], want='')
        elif kind in ('str', 'repr'):
            o = o._copy()
            o._set_proxy_options(safe_print=False)
            g = lib.guarded(self.world, str if kind == 'str' else repr, o)
            if w[0] == 'exc':
                ok, t = g[0] == 'exc', None
            else:
                t = str(w[1]) if kind == 'str' else repr(w[1])
                ok = g[0] == 'ok' and (g[1] == t or kind == 'repr' and (t in g[1] or ' object at 0x' in t) and 'ObjectProxy' in g[1] or
                                       ' at 0x' in t)
            self.rec('text', ok=ok, what=kind, got=list(g[:3]), want=t)

    def timeout(self, op):
        """The timeout of a call is its own, or else that of the proxy."""
        w = lib.guarded(self.world, self.obj, op, self.lslots)
        if w[0] != 'ok' or not isinstance(w[1], self.local.Node):
            return
        f, via = self.rslots[op['s']], op['via']
        if via in ('parent', 'copy'):
            f = f._copy()
            f._set_proxy_options(timeout=0.05)
            if via == 'copy':
                f = f._copy()
        for x in op['path'] + ['nap']:
            f = getattr(f, x)
        kw = {'_timeout': 0.05 if via == 'kw' else 30.0} if via in ('kw', 'over') else {}
        if via in ('opt', 'over'):
            f._set_proxy_options(timeout=0.05)
        t0 = self.k.now
        r = lib.guarded(self.world, f, 1.5, **kw)
        dt = (self.k.now - t0) / SEC
        ok = r[:2] == ('ok', 1.5) if via == 'over' else r[0] == 'exc' and r[1] == 'TimeoutError' and dt < 1.4
        self.rec('text', ok=ok, what='timeout', got=[list(r[:3]), dt], want=via)

    def thread(self, op):
        """Another thread of the process uses a copy."""
        th = self.p.env.import_('threading')
        base = self.rslots[op['s']]._copy()
        out = []

        def other():
            f = base
            try:
                for x in op['path']:
                    f = getattr(f, x)
                for i in range(20):
                    try:
                        out.append(('ok', f.both('b')))
                        break
                    except TimeoutError as e:       # connecting has a fixed limit of 1 s
                        if 'establish' not in str(e) or i == 19:
                            raise
                        self.p.env.import_('time').sleep(0.05)
                if self.is_proxy(out[0][1][0]):
                    out.append(self.th2_label(out[0][1][0]))
            except HarnessError:
                raise
            except Exception as e:
                out.append(('exc', type(e).__name__, str(e), e))
        want = lib.guarded(self.world, lambda: self.obj(op, self.lslots).both('b'))
        t = th.Thread(target=other)
        t.start()
        t.join()
        if not out:
            self.rec('text', ok=False, what='thread', got=[], want='')
            return
        if want[0] == 'exc':
            ok = out[0][0] == 'exc' and getattr(out[0][3], 'type_str', None) == want[1]
        else:
            ok = out[0][0] == 'ok' and len(out) == 2 and out[1] == want[1][0].label and out[0][1][1:] == [{'o': 'b'}, 5]
        self.rec('text', ok=ok, what='thread', got=repr(out)[:900], want=repr(want)[:300])

    def th2_label(self, p):
        return p.label._get_value()


def client_main(p, spec, c):
    th = p.env.import_('threading')
    p.env.import_('teleprox')
    ts = []
    for ti, t in enumerate(c['threads']):
        r = Run(p, spec, c, ti, t)
        x = th.Thread(target=r.run)
        x.start()
        ts.append(x)
    for x in ts:
        x.join()


def setup(world, spec):
    lib.setup_common(world, spec)
    h = world.hosts[0]
    n = 0
    for s in spec['servers']:
        world.start_user(h, s['name'], lambda p, s=s: server_main(p, spec, s))
    for c in spec['clients']:
        n += len(c['threads'])
        world.start_user(h, c['name'], lambda p, c=c: client_main(p, spec, c))

    def coordinator():
        world.mail.wait_count('client_done', n)
        world.k.finish('done')
    world.k.spawn(None, coordinator, 'coordinator')


# ---- oracle ---------------------------------------------------------------------------
def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('deadlock', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    for h in k.history:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'cmp' and not h['ok']:
            v('differs', '%s step %d %s: got %r, want %r: %s' % (h['who'], h['at'], json.dumps(h['op']), h['got'], h['want'], h['why']))
        elif h['k'] == 'off' and h['r'] != ['ok', 'None']:
            v('off-result', '%s step %d: %r' % (h['who'], h['at'], h['r']))
        elif h['k'] == 'text' and not h['ok']:
            v('text-' + h['what'], '%s: got %r, want %r' % (h['who'], h['got'], h['want']))
        elif h['k'] == 'badopt' and h['r'][1] != 'KeyError':
            v('bad-option', 'an unknown proxy option gave %r' % (h['r'],))
        elif h['k'] == 'end' and not h['same']:
            v('state-differs', '%s: objects ended as %s, should be %s' % (h['who'], h['got'], h['want']))
    return V


def nontrivial(world, spec):
    c = [h for h in world.k.history if h['k'] == 'cmp']
    return len(c) >= 8 and any(h['proxy'] for h in c)
