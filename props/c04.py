"""One bad request fails alone: the caller gets an error, everybody else is unaffected."""
from dst import rpcbase

RUNS = {'quick': 2500, 'thorough': 60000}
RULE = 'programs in which about a third of the requests are invalid in one of 13 ways or raise in the server, mixed with ' \
       'good requests of several clients; non-trivial: at least one bad request was answered'
CLASSES = {'bad-request', 'server-died', 'client-crashed', 'wrong-outcome', 'outcome-changed', 'reply-lost',
           'never-executed', 'not-usable-after-faults', 'future-never-done', 'no-progress'}
setup, describe, shrink = rpcbase.setup, rpcbase.describe, rpcbase.shrink


def gen(rng, tier, i):
    return rpcbase.gen(rng, tier, nops=(4, 14), faults=['stall', 'jump'] if rng.random() < 0.3 else None, bad=0.35,
                       slow=0.1, short_to=0.03, qt=0.2,
                       modes=['value'] * 3 + ['raise', 'keyerror', 'exit', 'kbint', 'badpickle', 'hugeint', 'objarray',
                                              'badtext', 'badexit', 'cyclic', 'badrepr', 'poison', 'chain', 'context'])


def check(world, spec):
    return [v for v in rpcbase.check_common(world, spec) if v['class'] in CLASSES]


def nontrivial(world, spec):
    return any(h['k'] == 'bad' for h in world.k.history)
