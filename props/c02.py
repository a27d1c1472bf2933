"""Requests execute exactly once, in order, one at a time; shared cells are linearizable."""
from dst import rpcbase

RUNS = {'quick': 3000, 'thorough': 60000}
RULE = 'several clients and threads sharing named items and a counter on one or two servers (main-thread, worker-thread ' \
       'and Qt servers) x sync/async/off calls x latency/stall/partition/clock faults; non-trivial: at least one reply'
CLASSES = {'executed-twice', 'overlap', 'reordered', 'never-executed', 'not-linearizable', 'counter-error',
           'reply-without-execution', 'no-progress', 'server-died', 'wrong-outcome', 'outcome-changed', 'future-never-done',
           'client-crashed', 'reply-lost', 'timeout-early', 'timeout-late', 'timeout-ignored', 'not-usable-after-faults'}
setup, describe, shrink, nontrivial = rpcbase.setup, rpcbase.describe, rpcbase.shrink, rpcbase.nontrivial


def gen(rng, tier, i):
    r = rng.random()
    faults = None if r < 0.4 else ['stall', 'jump', 'partition'] if r < 0.8 else ['reset', 'stall']
    return rpcbase.gen(rng, tier, nclients=(1, 3), nthreads=(1, 3), nops=(3, 10), faults=faults, regs=0.4, bad=0.02,
                       slow=0.3, batch=0.08, nested=0.3, cfg_kw={'hwm': True})


def check(world, spec):
    return [v for v in rpcbase.check_common(world, spec) + rpcbase.check_registers(world, spec) if v['class'] in CLASSES]
