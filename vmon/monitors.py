"""
Instrumentation around the running library. Nothing here changes what correct
code does.

uninitialised memory - numpy.empty and numpy.empty_like return arrays filled with
    a pattern (alternating between two, neither of them plausible data), so that
    a value that was never written and reaches a result is seen by the oracle.
directory order - os.listdir returns its entries in a random order, as it may.
mutation - fingerprints of inputs, before and after.
open files - PyTables' registry of open handles, and /proc/self/fd.
"""
import contextlib, os
import numpy as np

FLOATS = (np.nan, 1.2345e200)
INTS = (-0x5a5a5a5a, 0x6b6b6b6b)


def poison(arr, pattern):
    """Fill in place, field by field."""
    if not arr.flags.writeable or arr.size == 0:
        return arr
    dt = arr.dtype
    if dt.names is not None:
        for name in dt.names:
            poison(arr[name], pattern)
    elif dt.kind in 'fc':
        arr[...] = FLOATS[pattern] if dt.itemsize > 4 else (np.nan, 1.2e30)[pattern]
    elif dt.kind == 'i':
        arr[...] = INTS[pattern] if dt.itemsize >= 4 else (-77, 99)[pattern]
    elif dt.kind == 'u':
        arr[...] = 0x6b if dt.itemsize < 4 else 0x6b6b6b6b
    elif dt.kind == 'b':
        arr[...] = bool(pattern)
    return arr


@contextlib.contextmanager
def poisoned_empty(pattern, counter=None):
    empty, empty_like = np.empty, np.empty_like

    def bad_empty(*args, **kwds):
        arr = empty(*args, **kwds)
        if counter is not None:
            counter['uninitialised arrays poisoned'] += 1
        return poison(arr, pattern) if type(arr) is np.ndarray else arr

    def bad_empty_like(*args, **kwds):
        arr = empty_like(*args, **kwds)
        if counter is not None:
            counter['uninitialised arrays poisoned'] += 1
        return poison(arr, pattern) if type(arr) is np.ndarray else arr

    np.empty, np.empty_like = bad_empty, bad_empty_like
    try:
        yield
    finally:
        np.empty, np.empty_like = empty, empty_like


@contextlib.contextmanager
def shuffled_listdir(rng, counter=None):
    listdir = os.listdir

    def shuffled(*args, **kwds):
        names = listdir(*args, **kwds)
        names.sort()
        if counter is not None:
            counter['directory listings shuffled'] += 1
        return [names[i] for i in rng.permutation(len(names))]

    os.listdir = shuffled
    try:
        yield
    finally:
        os.listdir = listdir


@contextlib.contextmanager
def installed(case):
    rng = np.random.default_rng([case.seed & 0xffffffff, case.index, 77])
    with poisoned_empty(case.index % 2, case.counters), \
            shuffled_listdir(rng, case.counters):
        yield


def fingerprint(obj):
    """Hashable contents of arrays, particle sets and containers of them."""
    if isinstance(obj, np.ndarray):
        return (str(obj.dtype), obj.shape, np.ascontiguousarray(obj).tobytes())
    if isinstance(obj, dict):
        return tuple(sorted((str(k), fingerprint(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return tuple(fingerprint(x) for x in obj)
    if hasattr(obj, 'as_dict'):
        extra = obj.trajid() if not obj.has_property('trajid') else obj.time()
        return (fingerprint(obj.as_dict()), repr(extra))
    return repr(obj)


def open_files_under(path):
    """Paths of this process' open files which are under the given directory."""
    path = os.path.realpath(path) + os.sep
    found = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(path):
            found.append(target)
    return found
