"""Replies match requests."""
from dst import rpcbase

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'random client programs (sync/async/off calls, slow, failing and undecodable results, short timeouts, dropped ' \
       'and polled futures) x latency/stall/reset/clock faults; non-trivial: at least one reply was delivered'
CLASSES = {'wrong-outcome', 'outcome-changed', 'future-never-done', 'reply-without-execution', 'client-crashed',
           'reply-lost', 'no-progress', 'executed-twice', 'overlap', 'reordered', 'never-executed', 'server-died',
           'timeout-early', 'timeout-late', 'timeout-ignored', 'not-usable-after-faults'}
setup, describe, shrink, nontrivial = rpcbase.setup, rpcbase.describe, rpcbase.shrink, rpcbase.nontrivial


def gen(rng, tier, i):
    return rpcbase.gen(rng, tier, faults=['stall', 'jump', 'reset', 'partition'] if rng.random() < 0.5 else None,
                       cfg_kw={'hwm': True}, short_to=0.2, slow=0.3)


def check(world, spec):
    return [v for v in rpcbase.check_common(world, spec) if v['class'] in CLASSES]
