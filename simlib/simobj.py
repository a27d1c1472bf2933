"""Objects that are used by proxy (C19): the same code runs at the server and, as the reference, next to the client.
Every object gets a label from its space, in order of creation: objects with the same label are twins."""

import time


class Oops(Exception):
    pass


class Space:
    def __init__(self, name):
        self.name = name
        self.n = 0
        self.log = []

    def label(self):
        self.n += 1
        return '%s#%d' % (self.name, self.n)


def _expr(x):
    return x.expr if isinstance(x, Num) else repr(x) if isinstance(x, (int, float, str)) else repr(show(x, 0))


class Num:
    """Has every operator; results say what was computed from what."""

    def __init__(self, space, expr):
        self.space, self.expr, self.label = space, expr, space.label()

    def _new(self, fmt, other):
        if other == 'refuse':
            raise Oops('refused')
        return Num(self.space, fmt % (self.expr, _expr(other)))

    def __eq__(self, other):
        return self.expr == _expr(other)

    def __ne__(self, other):
        return self.expr != _expr(other)

    def __lt__(self, other):
        return [self.expr, '<', _expr(other)]

    def __gt__(self, other):
        return [self.expr, '>', _expr(other)]

    def __le__(self, other):
        return [self.expr, '<=', _expr(other)]

    def __ge__(self, other):
        return self._new('(%s >= %s)', other)

    __hash__ = object.__hash__

    def __len__(self):
        return len(self.expr)

    def __str__(self):
        return 'Num ' + self.expr

    __repr__ = __str__


def _ops():
    def fwd(op):
        return lambda self, other: self._new('(%%s %s %%s)' % op.replace('%', '%%'), other)

    def rev(op):
        def f(self, other):
            return Num(self.space, '(%s r%s %s)' % (_expr(other), op, self.expr))
        return f

    def inp(op):
        def f(self, other):
            if other == 'refuse':
                raise Oops('refused in place')
            self.expr = '(%s %s= %s)' % (self.expr, op, _expr(other))
            return self
        return f
    for n, op in [('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'),
                  ('pow', '**'), ('lshift', '<<'), ('rshift', '>>'), ('and', '&'), ('or', '|'), ('xor', '^')]:
        setattr(Num, '__%s__' % n, fwd(op))
        setattr(Num, '__r%s__' % n, rev(op))
        setattr(Num, '__i%s__' % n, inp(op))


_ops()


class Node:
    """Attributes, items, methods of every kind."""
    kind = 'node'

    def __init__(self, space, name='n', depth=2):
        self.space, self.name, self.label = space, name, space.label()
        self.x = 1
        self.data = {'a': [1, 2], 'b': None}
        self.items = ['p', 'q']
        self._hidden = 'h'
        self.num = Num(space, name)
        self.child = Node(space, name + 'c', depth - 1) if depth else None

    def get(self, *args, **kwds):
        return [self.name, args, kwds]

    def me(self):
        return self

    def nap(self, dt):
        time.sleep(dt)
        return dt

    def both(self, other):
        return [self, {'o': other}, 5]

    def same(self, other):
        return self is other

    def make(self, name='m', depth=0):
        return Node(self.space, name, depth)

    def adopt(self, other, name='child'):
        setattr(self, name, other)

    def bump(self, by=1):
        self.x += by
        return self.x

    def append(self, *v):
        self.items.extend(v)

    def call(self, f, *args):
        return f(*args)

    def method(self, name):
        return getattr(self, name)

    def fail(self, what='oops'):
        if what == 'oops':
            raise Oops(self.name)
        if what == 'key':
            raise KeyError(self.name)
        if what == 'attr':
            raise AttributeError(self.name)
        if what == 'stop':
            raise StopIteration(self.name)
        raise IndexError(what)

    def thing(self, what):
        return {'list': lambda: self.items, 'dict': lambda: self.data, 'str': lambda: self.name, 'int': lambda: self.x,
                'none': lambda: None, 'self': lambda: self, 'num': lambda: self.num, 'class': lambda: Num,
                'tuple': lambda: (self.x, self.name), 'method': lambda: self.bump, 'set': lambda: {1, 2}}[what]()

    def __getitem__(self, key):
        return self.data[key]

    def __setitem__(self, key, value):
        self.data[key] = value

    def __len__(self):
        return len(self.data)

    def __call__(self, *args, **kwds):
        return ['called', self.name, args, kwds]

    def __str__(self):
        return 'Node ' + self.name

    @property
    def prop(self):
        return 'prop-' + self.name

    @property
    def broken(self):
        raise Oops('no ' + self.name)

    @classmethod
    def cls(cls, a=1):
        return ['cls', cls.kind, a]

    @staticmethod
    def sta(a, *, b=2):
        return ['sta', a, b]


def new_space(name):
    s = Space(name)
    s.root = Node(s, 'r', 2)
    return s


def show(x, depth=3):
    """What an object looks like: comparable between twins."""
    if isinstance(x, Num):
        return ['Num', x.label, x.expr]
    if isinstance(x, Node):
        if depth <= 0:
            return ['Node', x.label]
        return ['Node', x.label, x.name, [[k, show(v, depth - 1)] for k, v in sorted(x.__dict__.items())
                                          if k not in ('space', 'label', 'name')]]
    if isinstance(x, Space):
        return ['Space', x.name, x.n]
    if isinstance(x, (list, tuple, dict)) and depth < -2:
        return '...'
    if isinstance(x, (list, tuple)):
        return ['seq'] + [show(y, depth - .2) for y in x]
    if isinstance(x, dict):
        return ['dict'] + sorted([[repr(k), show(v, depth - .2)] for k, v in x.items()])
    if isinstance(x, set):
        return ['set', sorted(x)]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if hasattr(x, '__self__') and hasattr(x, '__name__'):
        return ['method', x.__name__, show(x.__self__, 0)]
    return ['?', getattr(x, '__name__', type(x).__name__)]
