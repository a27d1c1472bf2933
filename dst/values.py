"""Values sent through the serializers: built from a seed (so that client and oracle build the same one)
and compared by a type-aware canonical form."""
import datetime
import math
import random

import numpy as np

SIMPLE_DTYPES = ['i1', 'u1', 'i2', '<u4', '>i4', 'i8', 'u8', 'f2', 'f4', '>f8', 'f8', 'c8', 'c16', '?', 'S3', 'U2',
                 'M8[us]', 'm8[s]']


def array(rng):
    r = rng.random()
    if r < 0.12:
        dt = rng.choice([np.dtype([('a', '<i4'), ('b', '<f8', (2,))]), np.dtype([('x', 'u1'), ('y', '>i2')]),
                         np.dtype([('a', 'i1'), ('b', 'f8')], align=True), np.dtype([('p', [('q', 'i2'), ('r', 'S2')])])])
    else:
        dt = np.dtype(rng.choice(SIMPLE_DTYPES))
    shape = rng.choice([(), (0,), (1,), (5,), (2, 3), (3, 2), (0, 3), (2, 1, 3), (4, 4), (2, 3, 4), (100,), (17, 31)])
    n = int(np.prod(shape)) * dt.itemsize
    if dt.kind == 'U':
        a = np.array([rng.choice(['', 'a', 'é', '☃x']) for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
    elif dt.kind == '?' or dt.char == '?':
        a = np.array([rng.random() < .5 for _ in range(int(np.prod(shape)))], dtype=dt).reshape(shape)
    else:
        a = np.frombuffer(bytes(rng.randrange(256) for _ in range(n)), dtype=dt).reshape(shape)
    v = rng.random()
    if v < 0.15:
        a = a.T
    elif v < 0.25 and a.ndim:
        a = a[::-1]
    elif v < 0.35 and a.ndim:
        a = a[..., ::2]
    elif v < 0.42:
        a = np.asfortranarray(a)
    elif v < 0.47:
        a = np.broadcast_to(a, (2,) + a.shape)
    elif v < 0.55:
        a = a.copy()
    return a


def scalar(rng):
    kind = rng.choice(['int', 'int', 'float', 'bool', 'none', 'str', 'str', 'bytes', 'bytes', 'datetime', 'datetime', 'date',
                       'npscalar', 'npscalar', 'dtype'])
    if kind == 'int':
        return rng.choice([0, 1, -1, 127, 128, -32, -33, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 63 - 1, -2 ** 63,
                           2 ** 64 - 1, 2 ** 53 + 1, 2 ** 64, -2 ** 63 - 1, 2 ** 200, rng.randrange(-2 ** 40, 2 ** 40)])
    if kind == 'float':
        return rng.choice([0.0, -0.0, 1.5, float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308,
                           0.1, rng.random() * 10 ** rng.randint(-30, 30)])
    if kind == 'bool':
        return rng.random() < .5
    if kind == 'none':
        return None
    if kind == 'str':
        return rng.choice(['', 'a', 'x' * 31, 'x' * 32, 'y' * 255, 'z' * 256, 'é☃𝄞', 'nul\x00byte', 'line\nline', '"quotes\\"',
                           'q' * 70000, '___', 'none', 'ndarray'])
    if kind == 'bytes':
        return rng.choice([b'', b'abc', bytes(range(256)), b'\xff\xfe', b'\x00' * 3000])
    if kind == 'datetime':
        tz = rng.choice([None, None, None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=-9.5)),
                         datetime.timezone(datetime.timedelta(hours=5, minutes=45))])
        return datetime.datetime(rng.choice([1, 33, 999, 1970, 2024, 9999]), rng.randint(1, 12), rng.randint(1, 28),
                                 rng.randrange(24), rng.randrange(60), rng.randrange(60),
                                 rng.choice([0, 1, 500, 678901, 999999]), tzinfo=tz)
    if kind == 'date':
        return datetime.date(rng.choice([1, 33, 999, 1970, 2024, 9999]), rng.randint(1, 12), rng.randint(1, 28))
    if kind == 'dtype':
        return np.dtype(rng.choice(SIMPLE_DTYPES[:16] + ['i4,f8']))
    t = rng.choice([np.int8, np.uint16, np.int64, np.uint64, np.float16, np.float32, np.float64, np.bool_,
                    np.complex64, np.complex128, np.timedelta64, np.longdouble])
    if t is np.bool_:
        return t(rng.random() < .5)
    if t is np.timedelta64:
        return t(rng.choice([0, -5, 2 ** 40, 'NaT']), rng.choice(['s', 'D', 'ns']))
    if t is np.longdouble:
        return t(1) / rng.choice([3, 7, 1])
    if issubclass(t, np.complexfloating):
        return t(rng.choice([0j, 1.5 - 2j, complex(0, float('inf'))]))
    return t(rng.choice([0, 1, 100, 7]) if issubclass(t, np.integer) else rng.choice([0., .5, -1.25, 0.1, float('inf')]))


def key(rng):
    return rng.choice(['a', 'b', 'key', '', 'é', 'type', 'data', 'x' * 40, 'none', 'self'])


def build(seed, depth=3):
    return _build(random.Random('value-%s' % seed), depth)


def _build(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.35:
        return scalar(rng) if rng.random() < .65 else array(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5] + [17] * (depth == 3))
    if r < 0.60:
        return [_build(rng, depth - 1) for _ in range(n)]
    if r < 0.75:
        return tuple(_build(rng, depth - 1) for _ in range(n))
    if rng.random() < 0.15:
        return {rng.choice([i, -i, i * 1000]): _build(rng, depth - 1) for i in range(n)}
    return {key(rng): _build(rng, depth - 1) for _ in range(n)}


def num(v):
    if v != v:
        return 'nan'
    return repr(v)


def canon(v, json=False):
    """Canonical, JSON-able form: equal iff the values are the same. Documented conversions are applied: lists and
    tuples are not distinguished; with json, keys of dicts are strings and numpy floats that are Python floats, too,
    arrive as such."""
    t = type(v)
    if v is None:
        return None
    if t is bool:
        return v
    if t is int:
        return v if abs(v) < 2 ** 53 else ['int', str(v)]
    if t is float:
        return ['float', num(v)]
    if t is str:
        return v if len(v) < 200 else ['str', len(v), v[:20], hash_(v.encode(errors='backslashreplace'))]
    if t is bytes:
        return ['bytes', len(v), v[:40].hex(), hash_(v)]
    if t in (list, tuple):
        return ['seq'] + [canon(x, json) for x in v]
    if t is dict:
        return ['dict'] + sorted([[repr(str(k) if json else k), canon(x, json)] for k, x in v.items()], key=lambda x: x[0])
    if t is datetime.datetime:
        return ['datetime', repr(v.replace(tzinfo=None)), None if v.tzinfo is None else str(v.utcoffset())]
    if t is datetime.date:
        return ['date', repr(v)]
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject:
            return ['objarray', list(v.shape), [canon(x, json) for x in v.ravel().tolist()]]
        return ['ndarray', dt(v.dtype), list(v.shape), hash_(valbytes(v)), repr(v.ravel()[:4].tolist())]
    if isinstance(v, np.bool_):
        return ['np', 'bool', bool(v)]
    if isinstance(v, np.number):
        if json and isinstance(v, float):
            return ['float', num(float(v))]
        return ['np', v.dtype.str, num(v.item())]
    if isinstance(v, np.dtype):
        return ['dtype', dt(v)]
    return ['?' + t.__name__, repr(v)[:200]]


def dt(d):
    """(byte order of single-byte types means nothing; names and offsets do)"""
    if d.names:
        return [[n, dt(d.fields[n][0]), d.fields[n][1]] for n in d.names] + [d.itemsize]
    if d.subdtype:
        return [dt(d.subdtype[0]), list(d.subdtype[1])]
    return d.str


def valbytes(a):
    if a.dtype.names:
        # without padding
        return b'|'.join(valbytes(a[n]) for n in a.dtype.names)
    return a.tobytes()


def hash_(b):
    import hashlib
    return hashlib.md5(b).hexdigest()[:12]
