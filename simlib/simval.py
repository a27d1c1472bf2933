"""Values of every kind, for the rules about what is sent by value and what by proxy (C22)."""

import collections
import datetime
import decimal
import random

import numpy as np

from teleprox.proxy import ObjectProxy
from teleprox.server import RPCServer
from teleprox.serializer import default_serialize_types

Point = collections.namedtuple('Point', 'x y')


class Rec:
    def __init__(self, label):
        self.label = label

    def __eq__(self, other):
        return type(other) is type(self) and other.label == self.label

    __hash__ = None

    def who(self):
        return self.label


class SubRec(Rec):
    pass


class Other(Rec):
    pass


TYPES = {'ndarray': np.ndarray, 'number': np.number, 'bool_': np.bool_, 'dtype': np.dtype, 'datetime': datetime.datetime,
         'date': datetime.date, 'Rec': Rec, 'SubRec': SubRec, 'Other': Other, 'set': set, 'complex': complex,
         'Decimal': decimal.Decimal, 'timedelta': datetime.timedelta, 'range': range, 'datetime64': np.datetime64}
MINUS = ['ndarray', 'number', 'bool_', 'dtype', 'datetime', 'date']
PLUS = ['Rec', 'SubRec', 'Other', 'set', 'complex', 'Decimal', 'timedelta', 'range', 'datetime64']


def types(cfg):
    if cfg is None:
        return None
    return tuple(t for t in default_serialize_types if t not in [TYPES[n] for n in cfg['minus']]) + \
        tuple(TYPES[n] for n in cfg['plus'])


def leaf(rng):
    n = rng.randrange(1000)
    return rng.choice([
        lambda: n, lambda: 'text%d' % n, lambda: None, lambda: n / 8, lambda: b'\xff%d' % n, lambda: True, lambda: 2 ** 70 + n,
        lambda: np.arange(n % 7).astype(rng.choice(['i4', 'f8', 'M8[s]'])), lambda: np.array(n, 'i8'),
        lambda: np.zeros((2, n % 3)), lambda: np.arange(6).reshape(2, 3).T,
        lambda: np.int16(n), lambda: np.float32(n / 3), lambda: np.float64(n / 7), lambda: np.bool_(n % 2), lambda: np.uint64(2 ** 64 - 1 - n),
        lambda: np.timedelta64(n, 's'), lambda: np.timedelta64(n, 'D'), lambda: np.complex64(n + 2j), lambda: np.complex128(1j * n),
        lambda: np.longdouble(1) / (n + 3), lambda: np.timedelta64('NaT'),
        lambda: np.dtype(rng.choice(['i4', '>f8', 'i2,f4'])),
        lambda: datetime.datetime(2020, 1, 1, 5, n % 60), lambda: datetime.date(1990, 2, 1 + n % 28),
        lambda: Rec('r%d' % n), lambda: Rec('r%d' % n), lambda: SubRec('s%d' % n), lambda: Other('o%d' % n), lambda: {n, 'a'},
        lambda: complex(n, -1), lambda: decimal.Decimal('1.%d' % n), lambda: datetime.timedelta(seconds=n), lambda: range(n),
        lambda: np.datetime64(n, 'D'),
    ])()


def build(seed):
    return _build(random.Random('val-%s' % seed), 3)


def _build(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.4:
        return leaf(rng)
    if r < 0.6:
        return [_build(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    if r < 0.75:
        return tuple(_build(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3])))
    if r < 0.8:
        return Point(_build(rng, depth - 1), leaf(rng))
    return {'k%d' % i: _build(rng, depth - 1) for i in range(rng.choice([0, 1, 2, 3]))}


def native(x, json):
    """Nothing ever asks about values that the format itself knows."""
    if json:
        return x is None or isinstance(x, (str, int, float, list, tuple, dict, bytes))
    return x is None or type(x) in (bool, str, float, list, dict, bytes) or type(x) is int and -2 ** 63 <= x < 2 ** 64


def by_value(x, types, json, top=False):
    if types is None:
        types = default_serialize_types
    return not top and native(x, json) or isinstance(x, types)


def scalar_like(x):
    return not isinstance(x, (list, tuple, dict))


def leaves(x, path=()):
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from leaves(y, path + (k,))
    else:
        yield path, x


def at(x, path):
    for k in path:
        x = x[k]
    return x


def type_str(x):
    return str(type(x))


def tree(x, types=None, json=False, expected=True, top=True):
    """What arrives if x is sent by somebody with these types (expected) / what x is (not expected)."""
    if type(x) is ObjectProxy:
        return ['proxy', x._type_str, list(x._attributes)]
    if expected and scalar_like(x) and not by_value(x, types, json, top):
        return ['proxy', str(type(x)), []]
    if isinstance(x, (list, tuple)):
        return ['seq'] + [tree(y, types, json, expected, False) for y in x]
    if isinstance(x, dict):
        return ['dict'] + [[k, tree(y, types, json, expected, False)] for k, y in sorted(x.items())]
    if isinstance(x, np.ndarray):
        return ['ndarray', x.dtype.str, list(x.shape), x.tobytes().hex()]
    if isinstance(x, np.dtype):
        return ['dtype', str(x)]
    if json and isinstance(x, float):
        return ['float', repr(float(x))]
    if isinstance(x, np.generic):
        return ['np', x.dtype.str, repr(x)]
    if isinstance(x, Rec):
        return [type(x).__name__, x.label]
    if isinstance(x, set):
        return ['set', sorted(repr(y) for y in x)]
    return [type(x).__name__, repr(x)]


# ---- at the server ------------------------------------------------------------------
given = {}
kept = {}


def give(key, seed):
    given[key] = build(seed)
    return given[key]


class Box:
    pass


boxes = {}


def give_item(key, seed):
    RPCServer.get_server()[key] = give(key, seed)


def give_attr(key, seed):
    box = boxes[key] = Box()
    box.attr = give(key, seed)
    return box


def is_given(key, path, obj):
    """Is obj what was given (by proxy) at this place?"""
    return at(given[key], path) is obj


def take(key, x):
    kept[key] = x
    return tree(x, expected=False)


def take_item(key):
    return take(key, RPCServer.get_server()[key])


def back(key):
    return kept[key]


def took(key):
    return key in kept


# ---- callbacks: the other way around --------------------------------------------------
def call(cb, key, seed):
    """Call back; what is the result?"""
    x = cb(key, seed, _timeout=15)
    return tree(x, expected=False)


def identity(cb, check, key, seed):
    """Is every proxy that the callback returns the very object of its owner?"""
    x = cb(key, seed, _timeout=15)
    return [check(key, list(path), y, _timeout=15) for path, y in leaves(x) if type(y) is ObjectProxy]
