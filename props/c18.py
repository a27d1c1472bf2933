"""Finding, killing and checking processes and ports acts on exactly those."""
import contextlib

from dst import lib
from dst.kernel import SEC, MS, HarnessError
from dst.osmodel import Process, Terminal

RUNS = {'quick': 3000, 'thorough': 100000}
RULE = 'processes with similar command lines start, end by themselves, stay as zombies or go on while 1-3 programs on two ' \
       'hosts search for, kill and check them and ask for the state of ports that are bound and released meanwhile, ' \
       'x schedules, stalls, partitions, hosts down; non-trivial: a process was killed or reported, or a port was open'
CLASSES = None

CMDS = ['python -m teleprox.bootstrap teleprox_%s', 'python prefix_%s.py --x  1', 'bash -c "sleep 10; prefix_%s"',
        '%s', 'vim teleprox_notes_%s.txt', 'C PID COMMAND %s', 'kworker/0:%s', '/usr/bin/env LANG=de %s é ü',
        '12 prefix %s', 'python -c \'print("%s")\'']
SEARCH = ['teleprox_', 'teleprox.bootstrap', 'prefix_', 'prefix', 'é', 'COMMAND', 'AND', 'nothing like this', '  1', 'print("',
          'vim', '12 pre', 'a0', 'a1', 'a', '<defunct>']


def gen_op(rng, targets, ports):
    r = rng.random()
    if r < 0.2:
        return {'op': 'find', 's': rng.choice(SEARCH)}
    if r < 0.45:
        return {'op': 'kill', 's': rng.choice(SEARCH), 'wait': rng.choice([0, 0.01, 0.1, 1, None])}
    if r < 0.7:
        return {'op': 'cleaner', 'add': [rng.choice(targets) for _ in range(rng.choice([0, 1, 2, 3]))],
                'body': rng.choice([0, 0, 0.05, 0.5]), 'fail': rng.choice([None, None, 'ValueError', 'AssertionError', 'SystemExit']),
                'kid': rng.choice([None, None, 'stopped', 'left', 'killed'])}
    if r < 0.78:
        return {'op': 'assert', 'pids': [rng.choice(targets) for _ in range(rng.choice([0, 1, 2, 4]))]}
    if r < 0.9:
        return {'op': 'port', 'port': rng.choice(ports), 'host': rng.choice(['10.0.0.1', '10.0.0.2', '127.0.0.1', 'localhost', 'nohost']),
                'timeout': rng.choice([None, 0.05, 0.3])}
    if r < 0.95:
        return {'op': 'netstat'}
    return {'op': 'sleep', 'dt': rng.choice([0.01, 0.2, 1])}


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    cfg['pid_reuse'] = False
    if max(cfg['net_delays']) > 40 * MS:
        cfg['net_delays'] = [200000, 5 * MS]
    targets = []
    for j in range(rng.randint(1, 8)):
        t0 = rng.choice([0, 0, 0, 0.01, 0.1, 0.5])
        life = rng.choice([None, None, 0.004, 0.02, 0.1, 0.5, 1, 3])
        if life is not None:
            life = round(life * rng.uniform(.5, 1.5), 4)
        targets.append({'id': 'a%d' % j, 'cmd': rng.choice(CMDS) % ('a%d' % j), 'host': rng.choice(['alpha'] * 5 + ['beta']),
                        't0': t0, 'life': life, 'zombie': rng.random() < .2, 'name': rng.choice(['pa', 'pb', 'p-%d' % j])})
    ports = []
    for j in range(rng.choice([1, 2, 3])):
        ports.append({'port': 7000 + j, 'host': rng.choice(['alpha', 'alpha', 'beta']),
                      'ip': rng.choice(['127.0.0.1', '0.0.0.0', 'own']), 't0': rng.choice([0, 0, 0.1, 0.5, 5]),
                      'life': rng.choice([None, None, 0.1, 0.7])})
    tools = []
    ids = [t['id'] for t in targets]
    for j in range(rng.choice([1, 1, 2, 3])):
        tools.append({'name': 'T%d' % j, 'host': rng.choice(['alpha'] * 4 + ['beta']), 'gap': rng.choice([0, 0.01, 0.1]),
                      'ops': [gen_op(rng, ids, [p['port'] for p in ports] + [7009]) for _ in range(rng.randint(1, 6))]})
    faults = []
    t = 0.0
    for _ in range(rng.choice([0, 0, 1, 2])):
        t += rng.choice([0.005, 0.05, 0.3])
        kind = rng.choice(['stall', 'partition', 'hostdown', 'jump'])
        if kind == 'stall':
            faults.append({'t': round(t, 4), 'kind': 'stall', 'proc': rng.choice([x['name'] for x in tools]), 'dur': rng.choice([.02, .3, 1])})
        elif kind == 'partition':
            faults.append({'t': round(t, 4), 'kind': 'partition', 'a': 'alpha', 'b': 'beta', 'dur': rng.choice([.2, 2])})
        elif kind == 'jump':
            faults.append({'t': round(t, 4), 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-5, 3600])})
        elif not any(x['host'] == 'beta' for x in tools):
            faults.append({'t': round(t, 4), 'kind': 'hostdown', 'host': 'beta'})
    return {'cfg': cfg, 'hosts': [{'name': 'alpha', 'ip': '10.0.0.1'}, {'name': 'beta', 'ip': '10.0.0.2'}],
            'targets': targets, 'ports': ports, 'tools': tools, 'faults': faults}


def describe(spec):
    return {'targets': [[t['cmd'], t['t0'], t['life'], t['zombie']] for t in spec['targets']],
            'tools': [t['ops'] for t in spec['tools']], 'ports': spec['ports'], 'faults': spec['faults']}


def start_target(world, t, parents):
    h = lib.host(world, t['host'])
    parent = parents[t['host']] if t['zombie'] else None
    p = Process(world, h, t['id'], parent, t['cmd'].split(' '))
    p.fds = {}
    k = world.k

    def main():
        if t['life'] is None:
            k.park(None, on='a target that lives on')
        else:
            k.sleep(int(t['life'] * SEC))
    p.run_main(main)
    world.ctx['pids'][t['id']] = p


def port_main(p, spec, q):
    k = p.k
    k.sleep(int(q['t0'] * SEC))
    zmq = p.env.import_('zmq')
    s = zmq.Context.instance().socket(zmq.ROUTER)
    s.bind('tcp://%s:%d' % (p.host.ip if q['ip'] == 'own' else q['ip'], q['port']))
    k.record('bound', port=q['port'], pid=p.pid)
    if q['life'] is None:
        p.world.mail.get('tools_done')
    else:
        k.sleep(int(q['life'] * SEC))
    k.record('unbinding', port=q['port'])
    s.close(0)


class Named:
    def __init__(self, name, pid):
        self.name, self.pid = name, pid


def tool_main(p, spec, T):
    world, k = p.world, p.k
    util = p.env.import_('teleprox.util')
    time = p.env.import_('time')
    names = {t['id']: t['name'] for t in spec['targets']}
    for n, op in enumerate(T['ops']):
        time.sleep(T['gap'])
        t0 = k.now
        o = op['op']
        who = '%s.%d' % (T['name'], n)
        k.record('begin', who=who)
        if o == 'sleep':
            time.sleep(op['dt'])
            continue
        if o == 'find':
            r = lib.guarded(world, util.find_procs, op['s'])
        elif o == 'kill':
            r = lib.guarded(world, *((util.kill_procs, op['s']) + (() if op['wait'] is None else (op['wait'],))))
        elif o == 'assert':
            pids = [world.ctx['pids'][i].pid if i in world.ctx['pids'] else 99999 for i in op['pids']]
            if len(pids) == 1:
                r = lib.guarded(world, util.assert_pid_dead, pids[0])
            else:
                r = lib.guarded(world, util.assert_pids_dead, pids)
        elif o == 'port':
            r = lib.guarded(world, util.check_tcp_port, op['host'], op['port'], *(() if op['timeout'] is None else (op['timeout'],)))
        elif o == 'netstat':
            r = lib.guarded(world, lambda: [[x.proto, x.addr, x.port, x.state, x.pid] for x in util.netstat()])
        else:
            r = cleaner(p, spec, T, op, who, util, time, names)
        k.record('end', who=who, op=op, t0=t0, r=list(r[:3]), pid=p.pid, host=T['host'])


def cleaner(p, spec, T, op, who, util, time, names):
    world, k = p.world, p.k
    exc = {'ValueError': ValueError, 'AssertionError': AssertionError, 'SystemExit': SystemExit}.get(op['fail'])
    added = []
    kid = None
    tp = p.env.import_('teleprox')
    if op['kid']:
        r = lib.guarded(world, tp.start_process, 'kid')
        if r[0] != 'ok':
            k.record('kid_failed', who=who, err=r[2])
        else:
            kid = r[1]
    outcome = None
    try:
        with contextlib.ExitStack() as st:
            c = st.enter_context(util.ProcessCleaner())
            k.record('entered', who=who, same=True)
            for j, i in enumerate(op['add']):
                if i not in world.ctx['pids']:
                    continue
                q = world.ctx['pids'][i]
                if j % 2:
                    c.add(names[i], q.pid)
                else:
                    c.add(Named(names[i], q.pid))
                added.append([names[i], q.pid])
            if kid is not None:
                c.add(kid)
                added.append([kid.name, kid.pid])
                if op['kid'] == 'stopped':
                    lib.guarded(world, kid.stop)
                elif op['kid'] == 'killed':
                    lib.guarded(world, kid.kill)
                    lib.guarded(world, kid.wait, 5)
            time.sleep(op['body'])
            k.record('exiting', who=who, added=added)
            if exc:
                raise exc('body %s' % who)
        outcome = ('ok', None)
    except HarnessError:
        raise
    except BaseException as e:
        outcome = ('exc', type(e).__name__, str(e))
    k.record('left', who=who)
    if kid is not None:
        lib.guarded(world, kid.wait, 5)
    return outcome


def setup(world, spec):
    lib.setup_common(world, spec)
    k = world.k
    world.ctx['pids'] = {}
    parents = {}
    for h in ('alpha', 'beta'):
        parents[h] = world.start_user(lib.host(world, h), 'parent-' + h, lambda p: world.mail.get('over'))
    for t in spec['targets']:
        if t['t0'] == 0:
            start_target(world, t, parents)
        else:
            k.at(int(t['t0'] * SEC), start_target, world, t, parents)
    for q in spec['ports']:
        world.start_user(lib.host(world, q['host']), 'port%d' % q['port'], lambda p, q=q: port_main(p, spec, q))
    tools = [world.start_user(lib.host(world, T['host']), T['name'], lambda p, T=T: tool_main(p, spec, T)) for T in spec['tools']]

    def coordinator():
        while any(p.state == 'running' for p in tools):
            k.sleep(50 * MS)
            if k.now > 200 * SEC:
                k.finish('stuck')
        k.finish('done')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    H = k.history
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('no-progress', 'run ended as %s at t=%.3fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
    ops = [h for h in H if h['k'] == 'end']
    tools = {p.pid: p for p in world.all_procs if p.name in [T['name'] for T in spec['tools']]}
    hostname = {p.pid: p.host.name for p in world.all_procs}
    procs = {p.pid: p for p in world.all_procs}

    def line(p):
        return ' '.join(p.cmdline)
    END = 1 << 62
    used = set()
    INF = [(t, dict(f)) for t, f in world.ctx.get('faults_applied', ())]
    for h in ops:
        op, r, t0, t1, pid = h['op'], h['r'], h['t0'], h['t'], h['pid']
        mine = [(n, e) for n, e in enumerate(world.kill_log) if e[3] == pid and t0 <= e[0] <= t1 and e[2] != 0]
        killed = [e[1] for n, e in mine]
        used |= set(n for n, e in mine)
        o = op['op']
        here = [p for p in world.all_procs if p.host.name == h['host']]
        if o in ('find', 'netstat', 'port') and killed:
            v('killed-others', '%s %r killed %s' % (h['who'], op, killed))
        if o in ('find', 'kill'):
            if r[0] != 'ok':
                v('search-failed', '%s %r: %s %s' % (h['who'], op, r[1], r[2]))
                continue
            got = [x[0] for x in r[1]]
            if len(set(got)) != len(got):
                v('search-wrong', '%s %r: duplicates in %s' % (h['who'], op, r[1]))
            for x in r[1]:
                q = procs.get(x[0])
                if q is None:
                    if x[0] != 1 and op['s'] not in 'ps -e -o pid,command':
                        v('search-wrong', '%s %r: no such process %s' % (h['who'], op, x))
                elif not (op['s'] in line(q) or op['s'] in '[%s] <defunct>' % q.cmdline[0]) or q.host.name != h['host'] \
                        or q.started_at > t1:
                    v('search-wrong', '%s %r: found %s' % (h['who'], op, x))
                elif line(q) not in x[1] and '<defunct>' not in x[1]:
                    v('search-wrong', '%s %r: command line of %s is %r' % (h['who'], op, x, line(q)))
        if o == 'find':
            for q in here:
                if op['s'] in line(q) and q.started_at < t0 and (q.exited_at or END) > t1 and q.pid not in got:
                    v('missed', '%s %r: missed %d %r' % (h['who'], op, q.pid, line(q)))
                if q.pid in got and q.exited_at is not None and q.exited_at < t0 and not (q.parent is not None and '<defunct>' in str(r[1])):
                    v('search-wrong', '%s %r: found %d, which ended at %.4f' % (h['who'], op, q.pid, q.exited_at / SEC))
        elif o == 'kill':
            w = int((5 if op['wait'] is None else op['wait']) * SEC)
            w -= w // 5000
            for n, e in mine:
                q = procs[e[1]]
                if not (op['s'] in line(q) or op['s'] in '[%s] <defunct>' % q.cmdline[0]) or q.host.name != h['host']:
                    v('killed-others', '%s %r killed %d %r' % (h['who'], op, q.pid, line(q)))
                if e[0] - t0 < w:
                    v('killed-early', '%s %r killed %d after %.4f s' % (h['who'], op, q.pid, (e[0] - t0) / SEC))
                if e[2] != 9:
                    v('not-killed', '%s: signal %d' % (h['who'], e[2]))
            if sorted(killed) != sorted(got) and set(killed) | {1} != set(got) | {1}:
                v('list-wrong', '%s %r: says %s, killed %s' % (h['who'], op, got, killed))
            for q in here:
                if op['s'] in line(q) and q.started_at < t0 and (q.exited_at or END) > t1:
                    v('not-killed', '%s %r: %d %r is alive' % (h['who'], op, q.pid, line(q)))
                ended = q.exited_at is not None and t0 + w < q.exited_at <= t1
                if op['s'] in line(q) and q.started_at < t0 and ended and q.exit_code == -9 and q.pid not in killed and \
                        not any(e[1] == q.pid and e[3] != pid for e in world.kill_log):
                    v('not-killed', '%s %r: %d' % (h['who'], op, q.pid))
        elif o == 'assert':
            want = [world.ctx['pids'][i] for i in op['pids'] if i in world.ctx['pids'] and world.ctx['pids'][i].started_at <= t0]
            judge(v, h, want, [], killed, t0, t1, None, mine)
        elif o == 'cleaner':
            te = next((x['t'] for x in H if x['k'] == 'exiting' and x['who'] == h['who']), None)
            tl = next((x['t'] for x in H if x['k'] == 'left' and x['who'] == h['who']), None)
            if te is None:
                v('cleaner-failed', '%s %r: %s' % (h['who'], op, r))
                continue
            added = next(x['added'] for x in H if x['k'] == 'exiting' and x['who'] == h['who'])
            inside = [(n, e) for n, e in mine if te <= e[0] <= tl]
            early = [e for n, e in mine if e[0] < te and e[1] in [a[1] for a in added] and not procs[e[1]].name.startswith('kid')
                     and e[1] in [x.pid for x in world.ctx['pids'].values()]]
            if early:
                v('killed-early', '%s %r: %s before the block ended' % (h['who'], op, early))
            judge(v, h, [procs[a[1]] for a in added], [a[0] for a in added], [e[1] for n, e in inside], te, tl, op['fail'], inside)
        elif o == 'port':
            judge_port(v, world, spec, h, INF)
        elif o == 'netstat':
            if r[0] != 'ok':
                v('netstat-failed', '%s: %s %s' % (h['who'], r[1], r[2]))
                continue
            got = [tuple(x) for x in r[1]]
            for q in spec['ports']:
                if q['host'] != h['host']:
                    continue
                b = next((x for x in H if x['k'] == 'bound' and x['port'] == q['port']), None)
                u = next((x['t'] for x in H if x['k'] == 'unbinding' and x['port'] == q['port']), END)
                n = [x for x in got if x[2] == q['port']]
                if b is not None and b['t'] < t0 and u > t1:
                    ip = lib.host(world, q['host']).ip if q['ip'] == 'own' else q['ip']
                    if n != [('tcp', ip, q['port'], 'LISTEN', b['pid'])]:
                        v('netstat-wrong', '%s: port %d of %d: %s' % (h['who'], q['port'], b['pid'], n))
                elif n and (b is None or b['t'] - 50 * MS > t1 or u < t0 - 100 * MS):
                    v('netstat-wrong', '%s: %s is not in use' % (h['who'], n))
            if ('tcp', '127.0.0.53', 53, 'LISTEN', 512) not in got or not any(x[:4] == ('tcp', '0.0.0.0', 22, 'LISTEN') for x in got):
                v('netstat-wrong', '%s: system ports missing: %s' % (h['who'], got))
    for n, e in enumerate(world.kill_log):
        if e[3] in tools and n not in used and e[2] != 0:
            done = [h for h in H if h['k'] == 'end' and h['pid'] == e[3]]
            v('killed-others', 'process %d was killed by a tool outside of its operations' % e[1])
    return V


def judge(v, h, want, names, killed, t0, t1, fail, mine):
    """Check the outcome of an operation on processes that should be dead."""
    END = 1 << 62
    r, who = h['r'], h['who']
    must, may = [], []
    for j, q in enumerate(want):
        by_me = q.pid in killed and q.exited_at is not None and any(e[0] == q.exited_at for n, e in mine if e[1] == q.pid)
        reaped_before = q.exited_at is not None and q.exited_at < t0 and q.state == 'reaped' and q.parent is None
        if q.started_at > t0:
            may.append(j)
        elif by_me or (q.exited_at or END) > t1:
            must.append(j)
        elif not reaped_before:
            may.append(j)
        if (q.exited_at or END) > t1:
            v('not-killed', '%s %r: %d is still alive' % (who, h['op'], q.pid))
    for x in killed:
        if x not in [q.pid for q in want]:
            v('killed-others', '%s %r killed %d' % (who, h['op'], x))
    for n, e in mine:
        if e[2] != 9:
            v('not-killed', '%s: signal %d' % (who, e[2]))
    if fail:
        if r[:3] != ['exc', fail, 'body %s' % who]:
            v('exception-lost', '%s %r: %s' % (who, h['op'], r))
        return
    if r[0] == 'exc' and r[1] != 'AssertionError':
        v('check-failed', '%s %r: %s' % (who, h['op'], r))
    elif r[0] == 'ok' and must:
        v('not-reported', '%s %r: %s were alive' % (who, h['op'], [want[j].pid for j in must]))
    elif r[0] == 'exc':
        if not must and not may:
            v('false-report', '%s %r: %s' % (who, h['op'], r[2]))
        for j, q in enumerate(want):
            tag = repr(names[j]) if names else str(q.pid)
            same = [i for i in must + may if (names and names[i] == names[j]) or i == j]
            if j in must and tag not in r[2]:
                v('not-reported', '%s %r: %s is missing in %r' % (who, h['op'], tag, r[2]))
            if not same and tag in r[2] and not any(tag in (repr(names[i]) if names else str(want[i].pid)) for i in must + may):
                v('false-report', '%s %r: %r names %s, which was dead' % (who, h['op'], r[2], tag))


def judge_port(v, world, spec, h, faults):
    H = world.k.history
    END = 1 << 62
    op, r, t0, t1 = h['op'], h['r'], h['t0'], h['t']
    limit = int((1.0 if op['timeout'] is None else op['timeout']) * SEC)
    stall = lib.stalls_between(world, t0, t1)
    slack = 20 * MS + 4 * max(spec['cfg']['net_delays']) + 4 * max(spec['cfg']['wake_delays']) + limit // 2000 + \
        sum(int(f['dur'] * SEC) for t, f in faults if f['kind'] == 'stall' and t <= t1 and t + int(f['dur'] * SEC) >= t0)
    if r[0] != 'ok':
        v('port-failed', '%s %r: %s' % (h['who'], op, r))
        return
    if t1 - t0 > limit + slack:
        v('port-late', '%s %r took %.3f s' % (h['who'], op, (t1 - t0) / SEC))
    if op['host'] == 'nohost':
        if r[1] != 'closed':
            v('port-wrong', '%s %r: %r' % (h['who'], op, r[1]))
        return
    target = {'10.0.0.1': 'alpha', '10.0.0.2': 'beta'}.get(op['host'], h['host'])
    cut_any = any(f['kind'] == 'partition' and t <= t1 and t + int(f['dur'] * SEC) >= t0 for t, f in faults) and target != h['host']
    cut_all = any(f['kind'] == 'partition' and t < t0 and t + int(f['dur'] * SEC) > t0 + limit + slack for t, f in faults) and target != h['host']
    down = any(f['kind'] == 'hostdown' and t < t0 for t, f in faults) and target == 'beta'
    down_any = any(f['kind'] == 'hostdown' and t <= t1 for t, f in faults) and target == 'beta'
    if down or cut_all:
        if r[1] != 'timeout':
            v('port-wrong', '%s %r: %r, but the host cannot be reached' % (h['who'], op, r[1]))
        return
    q = next((q for q in spec['ports'] if q['port'] == op['port'] and q['host'] == target), None)
    b = u = None
    if q is not None:
        b = next((x['t'] for x in H if x['k'] == 'bound' and x['port'] == q['port']), END)
        u = next((x['t'] for x in H if x['k'] == 'unbinding' and x['port'] == q['port']), END)
        local = op['host'] in ('127.0.0.1', 'localhost')
        if (q['ip'] == '127.0.0.1' and not local) or (q['ip'] == 'own' and local):
            q = None
    is_open = q is not None and b < t0 and u > t1
    is_closed = q is None or b - 50 * MS > t1 or u < t0 - 100 * MS
    ok = {'open', 'closed', 'timeout'}
    if not cut_any and not down_any:
        ok.discard('timeout')
    if is_open:
        ok.discard('closed')
    if is_closed:
        ok.discard('open')
    if r[1] not in ok:
        v('port-wrong', '%s %r: %r instead of %s' % (h['who'], op, r[1], sorted(ok)))


def nontrivial(world, spec):
    return any(h['k'] == 'end' and (h['r'][1] == 'open' or h['op']['op'] == 'kill' and h['r'][1] or h['r'][1] == 'AssertionError')
               for h in world.k.history)
