"""Timeouts are honoured whatever the server does, and the client works afterwards."""
from dst import rpcbase

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'calls and futures with short and long timeouts against slow, stalled, partitioned and reset servers while wall ' \
       'clocks jump; non-trivial: at least one call timed out or was slowed by a fault'
CLASSES = {'executed-twice', 'overlap', 'reordered', 'never-executed', 'not-linearizable', 'counter-error',
           'reply-without-execution', 'no-progress', 'server-died', 'wrong-outcome', 'outcome-changed', 'future-never-done',
           'client-crashed', 'reply-lost', 'timeout-early', 'timeout-late', 'timeout-ignored', 'not-usable-after-faults'}
setup, describe, shrink = rpcbase.setup, rpcbase.describe, rpcbase.shrink


def gen(rng, tier, i):
    return rpcbase.gen(rng, tier, nops=(4, 12), faults=['stall', 'jump', 'partition', 'stall', 'jump', 'reset'],
                       slow=0.5, short_to=0.5, bad=0.03, two_hosts=0.4, cfg_kw={'hwm': True})


def check(world, spec):
    return [v for v in rpcbase.check_common(world, spec) if v['class'] in CLASSES]


def nontrivial(world, spec):
    return any(h['k'] == 'outcome' and h['r'][0] == 'exc' and h['r'][1] == 'TimeoutError'
               for h in world.k.history) or bool(world.k.faults)
