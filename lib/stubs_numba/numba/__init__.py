"""Interpreted stand-in for numba: decorators that compile nothing."""


class config:
    NUMBA_DEFAULT_NUM_THREADS = 1
    NUMBA_NUM_THREADS = 1
    THREADING_LAYER = "default"


def njit(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs:
        return args[0]
    return lambda f: f


jit = njit
prange = range


def set_num_threads(n):
    return None


def get_num_threads():
    return 1


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    class _T:
        def __getitem__(self, _):
            return self

        def __call__(self, *a, **k):
            return self

    return _T()
