"""Programs that start and end processes (shared by the process properties)."""
from . import lib
from .kernel import SEC, MS, HarnessError
from .modules import PYEXE

START_FAULTS = ['eagain', 'enomem', 'crash', 'hang', 'exit1', 'slow']


def gen_child(rng, j, daemon, faulty, logs):
    opts = {'daemon': daemon, 'qt': rng.random() < 0.25, 'serializer': rng.choice(['msgpack', 'msgpack', 'json']),
            'name': rng.choice([None, 'kid%d' % j, 'kid']), 'local': rng.random() < 0.15,
            'level': rng.choice([None, None, 'INFO', 'debug', 30])}
    r = rng.random()
    opts['address'] = None if r < 0.7 else 'fixed' if r < 0.85 else 'bytes' if r < 0.93 else 'taken'
    opts['via'] = rng.choice([None] * 12 + ['shell', 'exe', 'conda', 'shell', 'exe', 'conda', 'conda_exe', 'conda_shell',
                                            'noexe', 'shell_noexe', 'noenv'])
    if not daemon:
        opts['stdio'] = rng.choice([None, None, None, 'pipe', 'null'] + (['log'] if logs else []))
        opts['log'] = rng.choice([None, 'str', 'bytes']) if logs else None
        if opts['stdio'] in ('pipe', 'null'):
            opts['log'] = None
    if rng.random() < 0.12:
        opts['refused'] = rng.choice(REFUSED_DAEMON if daemon else REFUSED)
    ch = {'opts': opts, 'fault': None, 'use': [], 'gap': rng.choice([0, 0, 0.01, 0.1])}
    if faulty and rng.random() < 0.5:
        r = rng.random()
        if r < 0.4:
            ch['fault'] = {'kind': 'spawn', 'f': rng.choice(START_FAULTS)}
        elif r < 0.75:
            ch['fault'] = {'kind': 'line', 'n': rng.choice([rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 1500)]),
                           'act': rng.choice(['crash', 'crash', 'crash', 'stall']), 'dur': rng.choice([0.05, 0.5, 3, 12])}
        else:
            ch['fault'] = {'kind': 'parent', 'n': rng.choice([rng.randint(1, 60), rng.randint(1, 400)])}
    for u in range(rng.randint(0, 4)):
        ch['use'].append({'op': rng.choice(['ping', 'pid', 'work', 'print', 'async', 'poll', 'wait']),
                          'dt': rng.choice([0, 0, 0.01])})
    return ch


#: combinations of options that start_process() documents as impossible
REFUSED = [{'log_stdio': True, 'stdout': 'PIPE'}, {'log_stdio': True, 'stderr': 'DEVNULL'},
           {'log_stdio': True, 'stdout': 'PIPE', 'stderr': 'PIPE'}, {'daemon': 'yes'}, {'qt': None}, {'address': None}, {'name': 3},
           {'log_addr': 7}, {'log_level': 1.5}, {'log_stdio': 'yes'}]
REFUSED_DAEMON = [{'log_stdio': True}, {'stdout': 'PIPE'}, {'stderr': 'PIPE'}, {'stdin': 'PIPE'}, {'stdout': 'DEVNULL'},
                  {'stdin': 'PIPE', 'stdout': 'PIPE'}] + REFUSED[3:]
NEVER = ('noexe', 'shell_noexe', 'noenv')       # ways to start a python that does not exist
PY3 = '/sim/other python/bin/python3'


class Starter:
    """Starts and uses one process according to a plan."""

    def __init__(self, p, who, plan):
        self.p, self.k, self.world, self.who, self.plan = p, p.k, p.world, who, plan
        self.tp = p.env.import_('teleprox')
        self.time = p.env.import_('time')
        self.sub = p.env.import_('subprocess')
        self.proc = None

    def rec(self, kind, **kw):
        self.k.record(kind, who=self.who, **kw)

    def kwargs(self):
        o = self.plan['opts']
        kw = {'daemon': o['daemon'], 'qt': o['qt'], 'serializer': o['serializer'], 'start_local_server': o['local']}
        if o['name'] is not None:
            kw['name'] = o['name']
        if o['level'] is not None:
            kw['log_level'] = o['level']
        if o['address'] in ('fixed', 'bytes'):
            n = self.world.ctx['nextport'] = self.world.ctx.get('nextport', 6000) + 1
            a = 'tcp://127.0.0.1:%d' % n
            kw['address'] = a if o['address'] == 'fixed' else a.encode()
            self.want_addr = a.encode()
        elif o['address'] == 'taken':
            kw['address'] = self.world.ctx['taken_addr'].decode()
        if o.get('stdio') == 'pipe':
            kw['stdout'] = self.sub.PIPE
        elif o.get('stdio') == 'null':
            kw['stdout'] = kw['stderr'] = self.sub.DEVNULL
        elif o.get('stdio') == 'log':
            kw['log_stdio'] = True
        via = o.get('via')
        if via is not None:
            if 'shell' in via:
                kw['shell'] = True
            if 'noexe' in via:
                kw['executable'] = '/sim/bin/nopython'
            elif 'exe' in via:
                kw['executable'] = PY3
            if 'conda' in via:
                kw['conda_env'] = 'lab'
            elif via == 'noenv':
                kw['conda_env'] = 'nosuch'
        if o.get('log'):
            a = self.world.ctx.get('log_addr', {}).get(self.p.pid)
            if a is not None:
                kw['log_addr'] = a.decode() if o['log'] == 'str' else a
        return kw

    want_addr = None

    def refused(self):
        """A call that has to be refused before anything is started."""
        k, world = self.k, self.world
        kw = self.kwargs()
        kw.pop('address', None)
        for n in ('stdout', 'stderr', 'log_stdio'):
            kw.pop(n, None)
        kw.update(self.plan['opts']['refused'])
        for n in ('stdin', 'stdout', 'stderr'):
            if n in kw:
                kw[n] = getattr(self.sub, kw[n])
        world.ctx['plan'][k.current] = self
        self.children = []
        n = world.spawn_count
        r = lib.guarded(world, self.tp.start_process, **kw)
        world.ctx['plan'].pop(k.current, None)
        self.rec('refused', kw=repr(self.plan['opts']['refused']), ok=r[0] == 'ok', err=None if r[0] == 'ok' else r[1],
                 spawned=len(self.children))
        for c in self.children:
            c.die(-9, killed=True)

    def start(self):
        k, world = self.k, self.world
        if self.plan['opts'].get('refused'):
            self.refused()
        world.ctx['plan'][k.current] = self
        kw = self.kwargs()
        t0 = k.now
        self.rec('starting', t0=t0)
        self.children = []
        r = lib.guarded(world, self.tp.start_process, **kw)
        world.ctx['plan'].pop(k.current, None)
        self.rec('started', ok=r[0] == 'ok', err=None if r[0] == 'ok' else [r[1], r[2][-400:]], t0=t0,
                 kids=[(c.pid, c.state) for c in self.children if c.parent is self.p])
        if r[0] != 'ok':
            return False
        self.proc = r[1]
        world.ctx['handed'].append((self.who, self.child(), self))
        c = self.child()
        info = {'pid': self.proc.pid, 'state': c.state if c is not None else None, 'name': self.proc.name, 'qt': self.proc.qt,
                'addr': self.proc.client.address.decode(), 'cls': type(self.proc).__name__}
        if c is not None:
            info.update(exe=c.exe, conda=c.environ.get('CONDA_DEFAULT_ENV'), wrapper=c.wrapper)
        self.rec('info', **info)
        return True

    def child(self):
        """The simulated process that start_process() claims to have started."""
        for q in reversed(self.world.all_procs):
            if q.pid == self.proc.pid and q in self.children:
                return q
        return None

    def use(self):
        c = self.proc.client
        for n, u in enumerate(self.plan['use']):
            t0 = self.k.now
            op = u['op']
            if op == 'ping':
                r = lib.guarded(self.world, c.ping)
                exp = 'pong'
            elif op == 'pid':
                r = lib.guarded(self.world, lambda: c._import('os').getpid())
                exp = self.proc.pid
            elif op in ('work', 'async'):
                tag = '%s.%d' % (self.who, n)
                exp = [tag, None]

                def f():
                    m = c._import('simuser')
                    if op == 'work':
                        return m.work(tag, None, u['dt'])
                    return m.work(tag, None, u['dt'], _sync='async').result(timeout=10)
                r = lib.guarded(self.world, f)
            elif op == 'print':
                r = lib.guarded(self.world, lambda: c._import('simuser').write('stdout', 'x%d\n' % n))
                exp = None
            elif op == 'poll':
                if not hasattr(self.proc, 'poll'):
                    continue
                r = lib.guarded(self.world, self.proc.poll)
                exp = None
            else:
                if not hasattr(self.proc, 'wait'):
                    continue
                r = lib.guarded(self.world, self.proc.wait, timeout=0.05)
                self.rec('waited', r=list(r[:3]), timeout=0.05, t0=t0)
                continue
            self.rec('used', op=op, r=list(r[:3]), exp=exp, t0=t0)


def on_spawn(world):
    """Attach new processes to the plan that made them and arm its faults."""
    k = world.k

    def f(c):
        t = k.current
        st = world.ctx['plan'].get(t) if t is not None else None
        if st is None and c.parent is not None:
            st = getattr(c.parent, 'plan', None)
        if st is None:
            return
        c.plan = st
        st.children.append(c)
        fl = st.plan['fault']
        if fl and fl['kind'] == 'line':
            def act():
                if fl['act'] == 'crash':
                    k.fault('child_crash')
                    k.record('fault', what='child_crash', pid=c.pid)
                    c.die(-9, killed=True)
                else:
                    c.stall(int(fl['dur'] * SEC))
            c.line_trigger.append((fl['n'], act))
        elif fl and fl['kind'] == 'parent' and len(st.children) == 1:
            def act():
                k.fault('parent_crash')
                k.record('fault', what='parent_crash', pid=st.p.pid)
                st.p.die(-9, killed=True)
            st.p.line_trigger.append((st.p.lines + fl['n'], act))
    return f


def spawn_fault(world):
    def f(task):
        st = world.ctx['plan'].get(task)
        fl = st.plan['fault'] if st is not None else None
        if fl and fl['kind'] == 'spawn':
            return fl['f']
        return None
    return f


def setup(world, spec):
    lib.setup_common(world, spec)
    world.ctx.update(plan={}, handed=[], nextport=6000, taken_addr=b'tcp://127.0.0.1:5999', log_addr={})
    world.pythons.add(PY3)
    world.conda_envs.add('lab')
    world.on_spawn = on_spawn(world)
    world.spawn_fault_fn = spawn_fault(world)

    def squatter(p):
        z = p.env.import_('zmq')
        s = z.Context.instance().socket(z.ROUTER)
        s.bind(world.ctx['taken_addr'])
        world.mail.put('taken')
        world.mail.wait(lambda: False)
    world.start_user(world.hosts[0], 'Q', squatter)


# ---- oracle parts -----------------------------------------------------------------
ERRORS = {'eagain': ('BlockingIOError',), 'enomem': ('MemoryError',)}


def slack(world, t0, t1):
    s = lib.stalls_between(world, t0, t1)
    for h in world.k.history:
        pass
    return s


def check_start(world, spec, v, plans):
    """Rules for start_process() itself."""
    for h in world.k.history:
        if h['k'] == 'refused':
            if h['ok'] or h['spawned']:
                v('not-refused', 'start_process of %s with %s %s' % (h['who'], h['kw'], 'was accepted' if h['ok'] else
                                                                   'failed after it had started a process'))
        elif h['k'] == 'started':
            plan = plans[h['who']]
            o, fl = plan['opts'], plan['fault']
            took = (h['t'] - h['t0']) / SEC
            lim = 25 + (fl.get('dur', 0) if fl else 0) + lib.stalls_between(world, h['t0'], h['t']) / SEC
            if took > lim:
                v('start-hangs', 'start_process of %s took %.1f s' % (h['who'], took))
            if o.get('via') in NEVER:
                if h['ok']:
                    v('start-wrong', 'start_process of %s succeeded although there is no such python' % h['who'])
                elif fl is None:
                    exp = 'FileNotFoundError' if o['via'] == 'noexe' else 'TimeoutError'
                    if h['err'][0] != exp and not (o['daemon'] and h['err'][0] in ('RuntimeError', 'TimeoutError')):
                        v('start-failed', 'start_process of %s (%s) failed with %r' % (h['who'], o['via'], h['err']))
                for pid, state in h['kids']:
                    if state != 'reaped':
                        v('left-behind', 'start_process of %s failed but left process %d (%s)' % (h['who'], pid, state))
                continue
            if h['ok']:
                if o['address'] == 'taken':
                    v('start-wrong', 'start_process of %s succeeded although its address is in use' % h['who'])
                if fl and fl['kind'] == 'spawn' and fl['f'] != 'slow':
                    v('start-wrong', 'start_process of %s succeeded although the process never came up' % h['who'])
                continue
            err = h['err']
            if o['address'] == 'taken':
                if not fl and not (err[0] == 'RuntimeError' and 'in use' in err[1]):
                    v('start-failed', 'start_process of %s (address in use) failed with %r' % (h['who'], err))
            elif fl is None:
                v('start-failed', 'start_process of %s failed after %.2f s without any fault: %r' % (h['who'], took, err))
            elif fl['kind'] == 'spawn' and fl['f'] in ERRORS and err[0] not in ERRORS[fl['f']]:
                v('start-failed', 'start_process of %s: %s was reported as %r' % (h['who'], fl['f'], err))
            elif err[0] not in ('TimeoutError', 'RuntimeError', 'ConnectionRefusedError', 'BlockingIOError', 'MemoryError'):
                v('start-failed', 'start_process of %s failed with %r' % (h['who'], err))
            if not o['daemon']:
                for pid, state in h['kids']:
                    if state != 'reaped':
                        v('left-behind', 'start_process of %s failed (%s) but left process %d (%s)' % (
                            h['who'], err[0], pid, state))
        elif h['k'] == 'info':
            plan = plans[h['who']]
            o = plan['opts']
            exp = 'DaemonProcess' if o['daemon'] else 'ChildProcess'
            if h['cls'] != exp or bool(h['qt']) != o['qt'] or o['name'] is not None and h['name'] != o['name']:
                v('start-wrong', 'start_process of %s returned %r' % (h['who'], h))
            if h['state'] is None:
                v('start-wrong', 'start_process of %s returned pid %d, which it did not start' % (h['who'], h['pid']))
            elif h['wrapper']:
                v('start-wrong', 'start_process of %s returned the pid of a shell' % h['who'])
            else:
                via = o.get('via')
                exe = '/sim/envs/lab/bin/python' if via in ('conda', 'conda_shell') else PY3 if via and 'exe' in via else PYEXE
                env = 'lab' if via and 'conda' in via else None
                if (h['exe'], h['conda']) != (exe, env):
                    v('start-wrong', 'start_process of %s (%s) runs %r in environment %r' % (
                        h['who'], via, h['exe'], h['conda']))
            if o['address'] in ('fixed', 'bytes') and h['addr'] != h.get('want', h['addr']):
                v('start-wrong', 'wrong address')
        elif h['k'] == 'used':
            plan = plans[h['who']]
            fl = plan['fault']
            r = h['r']
            if r[0] == 'ok':
                if h['op'] == 'poll':
                    if r[1] is not None and not crashed(plan):
                        v('wrong-status', 'poll() of %s gave %r while it is running' % (h['who'], r[1]))
                elif r[1] != h['exp']:
                    v('wrong-outcome', '%s of %s gave %r, expected %r' % (h['op'], h['who'], r[1], h['exp']))
            elif not crashed(plan) and not (fl and fl.get('dur', 0) >= 0.5):
                v('call-failed', '%s of %s failed: %r' % (h['op'], h['who'], r))


def crashed(plan):
    fl = plan['fault']
    return fl is not None and (fl['kind'] == 'line' and fl['act'] == 'crash')
