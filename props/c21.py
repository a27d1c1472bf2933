"""A log viewer gets every record once, in the GUI thread, and holds nobody up."""
from dst import lib, logbase
from dst.kernel import SEC, MS, HarnessError

RUNS = {'quick': 1500, 'thorough': 40000}
ANOMALIES = {'socket-shared'}
RULE = 'Qt programs with 1-3 LogViewers on loggers given by name or object, with levels and filters; records of 25 kinds come from ' \
       'threads, from the GUI thread and from other processes through a log server, while the GUI is idle, busy or gone; ' \
       'x delays, stalls; non-trivial: a viewer got records of two threads'
TICK = 20 * MS
NAMES = ['', 'app', 'app.sub']


def gen(rng, tier, i):
    cfg = lib.gen_cfg(rng)
    if max(cfg['net_delays']) > 40000000:
        cfg['net_delays'] = [200000, 30000000]

    def ops():
        out = []
        for j in range(rng.randint(1, 10)):
            if rng.random() < 0.75:
                op = logbase.gen_log(rng, NAMES)
                while op['kind'] == 'surrogate':
                    op = logbase.gen_log(rng, NAMES)
                out.append(op)
            else:
                out.append({'op': 'sleep', 'dt': rng.choice([0.001, 0.02, 0.1])})
        return out
    views = [{'name': rng.choice(NAMES), 'by': rng.choice(['name', 'object']), 'at': rng.choice([0, 0, 0, 0.03]),
              'level': rng.choice([None, None, None, 'WARNING']), 'filter': rng.random() < 0.2, 'own': rng.random() < 0.8}
             for _ in range(rng.choice([1, 1, 2, 3]))]
    spec = {'cfg': cfg, 'views': views, 'threads': [ops() for _ in range(rng.choice([1, 2, 3]))], 'gui': ops() if rng.random() < 0.6 else [],
            'remote': ops() if rng.random() < 0.5 else None, 'level': rng.choice(['DEBUG', 'DEBUG', 'INFO', 'WARNING']),
            'busy': rng.choice([None, None, [0.03, 0.3]]), 'after': rng.random() < 0.3, 'faults': [],
            'quit': rng.choice([0.6, 1.0])}
    if rng.random() < 0.25:
        spec['faults'].append({'t': rng.choice([0.02, 0.1, 0.3]), 'kind': 'stall', 'dur': rng.choice([0.05, 0.3]), 'proc': 'Q'})
    if rng.random() < 0.15:
        spec['faults'].append({'t': rng.choice([0.02, 0.2]), 'kind': 'jump', 'host': 'alpha', 'by': rng.choice([-3600, 86400])})
    return spec


def describe(spec):
    return {'views': len(spec['views']), 'threads': len(spec['threads'])}


def logger_of(p, k, who, th):
    """-> function that creates the records of one thread."""
    logging = p.env.import_('logging')
    time = p.env.import_('time')

    def run(ops):
        for n, v in logbase.LEVELS.items():
            if v in (5, 25, 60):
                logging.addLevelName(v, n)
        for n, op in enumerate(ops):
            try:
                if op['op'] == 'sleep':
                    if who != 'gui':
                        time.sleep(op['dt'])
                    continue
                lg = logging.getLogger(op['name'])
                lv = logbase.LEVELS[op['level']]
                tag = '%s.%d' % (who, n)
                t0 = k.now
                on = lg.isEnabledFor(lv)
                text = logbase.emit(p, lg, lv, op['kind'], tag)
                k.record('log', who=who, tag=tag, text=text, lv=lv, on=on, name=op['name'], t0=t0, what=op['kind'])
            except HarnessError:
                raise
            except BaseException as e:
                k.record('client_crashed', who=who, err=repr(e)[:400], tb=lib.tb())
    return run


def gui_main(p, spec):
    world, k = p.world, p.k
    logging = p.env.import_('logging')
    p.env.import_('teleprox')
    qt = p.env.import_('teleprox.qt')
    remote = p.env.import_('teleprox.log.remote')
    viewer = p.env.import_('teleprox.log.logviewer')
    th = p.env.import_('threading')
    time = p.env.import_('time')
    app = qt.QApplication([])
    gui = k.current.ident
    logging.getLogger().setLevel(spec['level'])
    views = []

    def make(n, cf):
        class View(viewer.LogViewer):
            def new_record(self, rec):
                text = rec.getMessage()
                k.record('shown', v=n, tag=logbase.tag_of(text), text=text, gui=k.current.ident == gui, lv=rec.levelno,
                         exc=bool(rec.exc_info or rec.exc_text))
        cls = View if cf['own'] else viewer.LogViewer
        t0 = k.now
        w = cls(cf['name'] if cf['by'] == 'name' else logging.getLogger(cf['name']))
        if cf['level']:
            w.handler.setLevel(cf['level'])
        if cf['filter']:
            w.handler.addFilter(lambda rec: rec.levelno != 40)
        views.append(w)
        w.show()
        k.record('view', v=n, t0=t0)
    for n, cf in enumerate(spec['views']):
        if not cf['at']:
            make(n, cf)
    if spec['remote'] is not None:
        srv = remote.LogServer(logging.getLogger())
        world.mail.put('addr', srv.address)
    run = {'n': 0}
    glog = logger_of(p, k, 'gui', th)
    start = k.now

    def tick():
        k.record('ui')
        for n, cf in enumerate(spec['views']):
            if cf['at'] and k.now >= start + cf['at'] * SEC:
                cf['at'] = 0
                make(n, cf)
        run['n'] += 1
        if run['n'] == 2:
            glog(spec['gui'])
        if run['n'] == 3 and spec['busy']:
            k.record('busy', t0=k.now)
            time.sleep(spec['busy'][1])
            k.record('busy_end')
        if world.mail.counts.get('logged', 0) == len(spec['threads']) + (spec['remote'] is not None) and 'quit' not in run \
                and k.now > start + spec['quit'] * SEC:
            run['quit'] = 1
            qt.QTimer.singleShot(700, ask)

    def ask():
        k.record('ask_quit')
        app.quit()
    ts = [th.Thread(target=lambda i=i, ops=ops: (logger_of(p, k, 't%d' % i, th)(ops), world.mail.incr('logged')))
          for i, ops in enumerate(spec['threads'])]
    timer = qt.QTimer()
    timer.timeout.connect(tick)
    timer.start(20)
    for t in ts:
        t.start()
    app.exec_()
    k.record('exec_returned')
    for t in ts:
        t.join()
    if spec['after']:
        # nobody shows these any more, but they must do no harm
        t = th.Thread(target=logger_of(p, k, 'late', th), args=(spec['threads'][0],))
        t.start()
        t.join()
    k.record('leaving')


def remote_main(p, spec):
    remote = p.env.import_('teleprox.log.remote')
    logging = p.env.import_('logging')
    addr = p.world.mail.get('addr')
    logging.getLogger().setLevel('DEBUG')
    remote.set_logger_address(addr)
    logger_of(p, p.k, 'far', None)(spec['remote'])
    p.world.mail.incr('logged')
    p.world.mail.get('over')


def setup(world, spec):
    lib.setup_common(world, spec)
    k = world.k
    q = world.start_user(world.hosts[0], 'Q', lambda p: gui_main(p, spec))
    if spec['remote'] is not None:
        world.start_user(world.hosts[0], 'R', lambda p: remote_main(p, spec))

    def coordinator():
        while q.state == 'running' and k.now < 30 * SEC:
            k.park(k.now + 20 * MS, on='sleep')
        k.record('q_state', alive=q.state == 'running', code=q.exit_code)
        k.finish('done')
    k.spawn(None, coordinator, 'coordinator')


def check(world, spec):
    k = world.k
    V = []

    def v(cls, msg):
        V.append({'class': cls, 'msg': msg})
    if k.outcome != 'done':
        v('deadlock', 'run ended as %s at t=%.2fs; blocked: %s' % (k.outcome, k.now / SEC, '; '.join(k.blocked_report[:8])))
        return V
    H = k.history
    q = next(p for p in world.all_procs if p.name == 'Q')
    logs = [h for h in H if h['k'] == 'log']
    by_tag = {h['tag']: h for h in logs}
    views = {h['v']: h for h in H if h['k'] == 'view'}
    quit_t = next((h['t'] for h in H if h['k'] == 'ask_quit'), 1 << 62)
    shown = {}
    for h in H:
        if h['k'] == 'client_crashed':
            v('client-crashed', '%s: %s %s' % (h['who'], h['err'], h['tb']))
        elif h['k'] == 'shown':
            if not h['gui']:
                v('wrong-thread', 'record %s was shown in another thread than that of the GUI' % h['tag'])
            shown.setdefault((h['v'], h['tag']), []).append(h)
    qs = next((h for h in H if h['k'] == 'q_state'), None)
    if qs is None or qs['alive']:
        v('not-exited', 'the Qt process did not end')
    elif qs['code'] != 0:
        v('exit-code', 'the Qt process ended with %r: %r' % (qs['code'], q.excepthook_calls[-2:]))
    out = b''.join(world.captured.get((q.pid, 1), [])).decode('utf-8', 'replace')
    lim = logbase.LEVELS[spec['level']]
    for h in logs:
        dt = (h['t'] - h['t0'] - lib.stalls_between(world, h['t0'], h['t'])) / SEC
        if dt > 0.5:
            v('blocked', 'creating record %s took %.2f s' % (h['tag'], dt))
    for n, cf in enumerate(spec['views']):
        if n not in views:
            v('no-view', 'viewer %d was not created' % n)
            continue
        for h in logs:
            far = h['who'] == 'far'
            if far:
                # handled by the root logger of the GUI process, whatever it is named
                want = cf['name'] == '' and h['lv'] >= lim
            else:
                want = h['on'] and (cf['name'] == '' or h['name'] == cf['name'] or h['name'].startswith(cf['name'] + '.'))
            want = want and h['lv'] >= logbase.LEVELS[cf['level'] or 'FIVE']
            if cf['filter'] and h['lv'] == 40:
                want = False
            g = shown.get((n, h['tag']), [])
            if h['text'] is None:
                # (cannot be displayed)
                if len(g) > 1:
                    v('duplicated', 'viewer %d got record %s %d times' % (n, h['tag'], len(g)))
                continue
            if not cf['own']:
                c = out.count(logbase.MARK % h['tag'])
                g = [] if not c else None
                unsub = [m for m, x in enumerate(spec['views']) if not x['own']]
                if len(unsub) > 1:
                    continue
                if c > 1:
                    v('duplicated', 'record %s was printed %d times' % (h['tag'], c))
            if g:
                e = g[0]
                if len(g) > 1:
                    v('duplicated', 'viewer %d got record %s %d times' % (n, h['tag'], len(g)))
                if not want:
                    v('not-filtered', 'viewer %d (%r) got record %s of %r level %d' % (n, cf, h['tag'], h['name'], h['lv']))
                if e['text'] != h['text'] or e['lv'] != h['lv'] or h['what'] in ('exc', 'excobj') and not e['exc']:
                    v('wrong-content', 'record %s was shown as %r' % (h['tag'], e))
                # in time
                dt = e['t'] - h['t']
                busy = sum(b['t'] - a['t'] for a, b in zip([x for x in H if x['k'] == 'busy'], [x for x in H if x['k'] == 'busy_end']))
                if dt > 400 * MS + busy + lib.stalls_between(world, h['t0'], e['t']) + 4 * max(spec['cfg']['wake_delays']):
                    v('late', 'record %s was shown after %.2f s' % (h['tag'], dt / SEC))
            elif g is not None and want and h['t0'] > views[n]['t'] and h['t'] < quit_t - 400 * MS - lib.stalls_between(
                    world, h['t'], quit_t) and h['who'] != 'late':
                v('lost', 'viewer %d never got record %s of logger %r, level %d' % (n, h['tag'], h['name'], h['lv']))
        # order of each thread
        last = {}
        for h in H:
            if h['k'] == 'shown' and h['v'] == n and h['tag'] in by_tag:
                who, i = h['tag'].split('.')
                if last.get(who, -1) > int(i):
                    v('out-of-order', 'viewer %d got record %s after a later one' % (n, h['tag']))
                last[who] = int(i)
    for (n, tag) in shown:
        if tag not in by_tag and tag is not None:
            v('wrong-content', 'viewer %d got a record %r nobody created' % (n, tag))
    ticks = [h['t'] for h in H if h['k'] == 'ui']
    for a, b in zip(ticks, ticks[1:]):
        busy = sum(y['t'] - x['t'] for x, y in zip([x for x in H if x['k'] == 'busy'], [x for x in H if x['k'] == 'busy_end'])
                   if a <= x['t'] <= b)
        if b - a - busy > 100 * MS + TICK + lib.stalls_between(world, a, b) + max(spec['cfg']['wake_delays']) * 8:
            v('gui-blocked', 'the event loop did nothing from %.4f to %.4f' % (a / SEC, b / SEC))
    return V


def nontrivial(world, spec):
    per = {}
    for h in world.k.history:
        if h['k'] == 'shown' and h['tag']:
            per.setdefault(h['v'], set()).add(h['tag'].split('.')[0])
    return any(len(x) > 1 for x in per.values())
