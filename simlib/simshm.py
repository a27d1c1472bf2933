"""Code that keeps and uses shared arrays in simulated processes (C17)."""
import numpy as np

_k = _k            # noqa: F821  (installed by the loader)
_proc = _proc      # noqa: F821

kept = {}          # tag -> SharedNDArray
datas = {}         # tag -> its data, without the wrapper


def mapped(a):
    """Is the memory of array a still mapped? (An access would crash the process otherwise.)"""
    while isinstance(a, np.ndarray):
        a = a.base
    return not getattr(a, 'unmapped', False)


def check(tag, a):
    if not mapped(a):
        _k.record('segfault', tag=tag, pid=_proc.pid)
        _k.record('proc_crash', pid=_proc.pid)
        raise MemoryError('segmentation fault: %s' % tag)


def keep(tag, arr, only_data=False):
    if only_data:
        datas[tag] = arr.data[...] if only_data == 'view' else arr.data
    else:
        kept[tag] = arr
    return describe(tag)


def get(tag):
    a = datas[tag] if tag in datas else kept[tag].data
    check(tag, a)
    return a


def describe(tag):
    a = get(tag)
    return [list(a.shape), str(a.dtype), canon(a)]


def canon(a):
    return np.ascontiguousarray(a).tobytes().hex()


def give(tag):
    return kept[tag]


def whole(tag):
    """The array as an ordinary value."""
    return get(tag)


def forward(tag, server_user):
    return server_user.keep(tag, kept[tag])


def write(tag, raw, idx=None):
    a = get(tag)
    v = np.frombuffer(bytes.fromhex(raw), a.dtype).reshape(a.shape)
    if idx is None:
        a[...] = v
    else:
        a.reshape(-1)[idx] = v.reshape(-1)[idx]
    return True


def make(tag, shape, dtype, how, close):
    from teleprox.shmem import SharedNDArray
    if how == 'zeros':
        arr = SharedNDArray.zeros(tuple(shape), dtype, close=close)
    else:
        arr = SharedNDArray.copy(np.full(tuple(shape), 7).astype(dtype), close=close)
    kept[tag] = arr
    return arr


def drop(tag):
    kept.pop(tag, None)
    datas.pop(tag, None)


def quit_process():
    import os
    os._exit(3)
