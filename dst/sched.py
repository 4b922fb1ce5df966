"""The compiled simulator under the thread scheduler of native/baton.cpp."""
import ctypes
import os

from . import env

_mods = {}
_FN = ctypes.CFUNCTYPE(None)
_pinned = False


def prepare():
    for k in (True, False):
        env.build_scheduled(k)


def pin():
    """One CPU per process: only one thread runs at any time anyway."""
    global _pinned
    if not _pinned:
        _pinned = True
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[os.getpid() % len(cpus)]})


class Lib:
    def __init__(self, intrin):
        p = env.build_scheduled(intrin)
        self.mod = env.load_scheduled(p, f"scheduled{int(intrin)}")
        self.path = p
        L = self.lib = ctypes.CDLL(p)
        L.baton_config.argtypes = [ctypes.c_uint64, ctypes.c_uint, ctypes.c_uint]
        L.baton_race.restype = ctypes.c_char_p
        L.memory_fail.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_int]
        L.memory_calm.argtypes = [ctypes.POINTER(ctypes.c_long)]
        L.memory_calm.restype = ctypes.c_long
        L.memory_live.restype = ctypes.c_long

    def config(self, seed, threads, period):
        self.lib.baton_config(seed & (2**64 - 1), threads, period)

    def stats(self):
        a = (ctypes.c_uint64 * 5)()
        self.lib.baton_stats(a)
        return {"accesses": a[0], "switches": a[1], "regions": a[2], "races": a[3], "hash": a[4], "race": self.lib.baton_race().decode()}

    def arm(self, at, min_size=0, sticky=0):
        self.lib.memory_fail(at, min_size, sticky)

    def calm(self):
        """(allocations that failed, allocations counted)"""
        n = ctypes.c_long()
        f = self.lib.memory_calm(ctypes.byref(n))
        return f, n.value


def lib(intrin):
    intrin = bool(intrin)
    if intrin not in _mods:
        _mods[intrin] = Lib(intrin)
    return _mods[intrin]


def fresh(fn):
    """Run in a thread of its own: per-thread buffers of the simulator start empty and are gone afterwards."""
    out = []

    def body():
        try:
            out.append((fn(), None))
        except BaseException as e:  # noqa
            out.append((None, e))

    f = _FN(body)
    if lib(True).lib.baton_fresh(f):
        raise RuntimeError("no thread")
    v, e = out[0]
    if e is not None:
        raise e
    return v
