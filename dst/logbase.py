"""Programs that create, forward and receive log records (shared by the logging properties)."""
from . import lib
from .kernel import SEC, MS, HarnessError

LEVELS = {'DEBUG': 10, 'INFO': 20, 'TWENTYFIVE': 25, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50, 'SIXTY': 60, 'FIVE': 5}
GOOD = ['plain', 'args', 'dictargs', 'mutable', 'object', 'exc', 'excobj', 'stack', 'extra', 'extra_odd', 'extra_keys', 'unicode',
        'surrogate', 'percent', 'long', 'bytes', 'newline', 'none', 'nan', 'direct', 'number']
BAD = ['badformat', 'badstr', 'badextra', 'circular']
MARK = 'rec<%s>'
FIELDS = ('name', 'levelno', 'levelname', 'created', 'process', 'process_name', 'thread', 'thread_name', 'host_name',
          'exc_text', 'stack_info', 'exc_info', 'myextra', 'pathname', 'funcName')


class Boom(Exception):
    pass


def fail(tag):
    text = 'inside ' + MARK % tag
    raise Boom(text)


def emit(p, lg, level, kind, tag):
    """Create one record in process p; -> the text it must arrive with (None: it cannot be sent)."""
    logging = p.env.import_('logging')
    msg = 'rec<%s>' % tag
    if kind == 'plain':
        lg.log(level, msg)
    elif kind == 'args':
        lg.log(level, '%s %d %r', msg, 7, {'a': 1})
        return msg + " 7 {'a': 1}"
    elif kind == 'dictargs':
        lg.log(level, '%(m)s %(x).2f', {'m': msg, 'x': 1.5})
        return msg + ' 1.50'
    elif kind == 'mutable':
        a = ['before']
        lg.log(level, '%s %s', msg, a)
        a[0] = 'after'
        return msg + " ['before']"
    elif kind == 'object':
        class M:
            def __str__(self):
                return msg
        lg.log(level, M())
    elif kind == 'number':
        lg.log(level, '%s', (msg, 1))
        return "('%s', 1)" % msg
    elif kind in ('exc', 'excobj'):
        try:
            raise Boom('inside ' + tag)
        except Boom as e:
            lg.log(level, msg, exc_info=e if kind == 'excobj' else True)
    elif kind == 'stack':
        lg.log(level, msg, stack_info=True)
    elif kind == 'extra':
        lg.log(level, msg, extra={'myextra': [1, 'two', None]})
    elif kind == 'extra_odd':
        lg.log(level, msg, extra={'odd': {1, 2}, 'obj': object(), 'cb': emit, 'by': b'\xff\x00', 'myextra': [1, 'two', None]})
    elif kind == 'extra_keys':
        lg.log(level, msg, extra={'keys': {(1, 2): 'x', 'ok': 1}, 'myextra': [1, 'two', None]})
    elif kind == 'unicode':
        lg.log(level, msg + ' \u00e9\u4e2d\U0001f600\x00\x7f')
        return msg + ' \u00e9\u4e2d\U0001f600\x00\x7f'
    elif kind == 'surrogate':
        lg.log(level, msg + ' \udc80')
        return msg + ' \udc80'
    elif kind == 'percent':
        lg.log(level, msg + ' 100%s %d %')
        return msg + ' 100%s %d %'
    elif kind == 'long':
        lg.log(level, msg + 'x' * 20000)
        return msg + 'x' * 20000
    elif kind == 'bytes':
        lg.log(level, '%s %s', msg, b'\xff')
        return msg + " b'\\xff'"
    elif kind == 'newline':
        lg.log(level, msg + '\nsecond\r\n')
        return msg + '\nsecond\r\n'
    elif kind == 'none':
        lg.log(level, '%s %s', msg, None)
        return msg + ' None'
    elif kind == 'nan':
        lg.log(level, msg, extra={'nan': float('nan'), 'inf': float('-inf'), 'myextra': [1, 'two', None]})
    elif kind == 'direct':
        # a record somebody made themselves
        rec = logging.LogRecord(lg.name, level, 'some/file.py', 17, '%s direct', (msg,), None)
        if lg.isEnabledFor(level):
            lg.handle(rec)
        return msg + ' direct'
    elif kind == 'badformat':
        lg.log(level, msg + ' %d %d', 'x')
        return None
    elif kind == 'badstr':
        class B:
            def __str__(self):
                raise ValueError('no text')
        lg.log(level, '%s', B())
        return None
    elif kind == 'badextra':
        class B:
            def __str__(self):
                raise ValueError('no text')
        lg.log(level, msg, extra={'b': B()})
        return None
    elif kind == 'circular':
        d = []
        d.append(d)
        lg.log(level, msg, extra={'d': d})
        return None
    else:
        raise HarnessError(kind)
    return msg


def tag_of(text):
    i = text.find('rec<')
    if i < 0:
        return None
    j = text.find('>', i)
    return text[i + 4:j]


def gen_log(rng, names):
    return {'op': 'log', 'level': rng.choice(sorted(LEVELS)), 'kind': rng.choice(GOOD if rng.random() < 0.9 else BAD),
            'name': rng.choice(names)}
