"""Bring the code under test into the process: build the C++ simulator from /repo's working tree, own the seams."""
import atexit
import gc
import hashlib
import importlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
SEAM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seam_random.hpp")
SIMDIR = os.path.join(REPO, "projectq/backends/_sim")


class BuildError(Exception):
    pass


def _hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def cpp_sources():
    out = []
    for d, _, fs in os.walk(SIMDIR):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".cc", ".c"))]
    return out


def compile_cached(name, cmd_fn, inputs, extra=""):
    """cmd_fn(outfile) -> list of commands.  Cached by the content of the inputs."""
    key = _hash(inputs, name + extra + repr(cmd_fn("OUT")) + sys.version)
    d = os.path.join(CACHE, f"{name}-{key}")
    out = os.path.join(d, name)
    if os.path.exists(out):
        return out
    # drop builds of other source states
    if os.path.isdir(CACHE):
        import shutil
        import time

        for e in os.listdir(CACHE):
            o = os.path.join(CACHE, e)
            try:
                idle = time.time() - os.path.getmtime(o)
            except OSError:
                continue
            if e.startswith(name + "-") and o != d and idle > 1200:  # not one that another run has just made
                shutil.rmtree(o, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f"tmp{os.getpid()}-{name}")
    for c in cmd_fn(tmp):
        p = subprocess.run(c, capture_output=True, text=True, cwd=d)
        if p.returncode:
            raise BuildError(" ".join(c) + "\n" + p.stderr[-4000:])
    os.replace(tmp, out)
    return out


def py_includes():
    import pybind11

    return ["-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"]]


def has_avx2():
    try:
        with open("/proc/cpuinfo") as f:
            return " avx2" in f.read()
    except OSError:
        return False


def simd_flags():
    # the flags of the shipped build: AVX2 kernels where the CPU has them
    return ["-mavx2", "-DINTRIN"] if has_avx2() else []


def build_plain():
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    src = os.path.join(SIMDIR, "_cppsim.cpp")

    def cmd(out):
        return [["g++", "-O1", "-std=c++17", "-shared", "-fPIC", "-DNDEBUG", "-fopenmp", "-ffast-math", "-w", "-include", SEAM] + simd_flags()
                + py_includes() + [src, "-o", out]]

    return compile_cached("_cppsim" + suffix, cmd, cpp_sources() + [SEAM])


BATON = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native/baton.cpp")
WRAPPED = ["malloc", "free", "posix_memalign", "_Znwm", "_ZdlPv", "_ZdlPvm", "memcpy", "memmove", "memset", "pthread_mutex_lock", "pthread_mutex_unlock"]


def build_scheduled(intrin=True):
    """The extension with every memory access, lock, barrier and allocation going through native/baton.cpp."""
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    src = os.path.join(SIMDIR, "_cppsim.cpp")
    flags = simd_flags() if intrin else []

    def cmd(out):
        return [
            ["g++", "-O1", "-std=c++17", "-fPIC", "-DNDEBUG", "-fopenmp", "-ffast-math", "-w", "-fno-gnu-unique", "-fsanitize=thread", "-include", SEAM,
             # registries of its own: several builds of the extension live in one process
             '-DPYBIND11_COMPILER_TYPE="_sched%d"' % intrin, "-c"] + flags
            + py_includes() + [src, "-o", out + ".sim.o"],
            ["g++", "-O2", "-std=c++17", "-fPIC", "-fno-builtin", "-c"] + py_includes() + [BATON, "-o", out + ".baton.o"],
            ["g++", "-shared", out + ".sim.o", out + ".baton.o", "-Wl,-Bsymbolic", "-Wl," + ",".join("--wrap=" + w for w in WRAPPED), "-lpthread", "-o", out],
            ["rm", "-f", out + ".sim.o", out + ".baton.o"],
        ]

    name = ("_schedsim" if intrin else "_schedsim_plain") + suffix
    return compile_cached(name, cmd, cpp_sources() + [SEAM, BATON])


def load_scheduled(path, package="scheduled"):
    """The scheduled build (not entered into sys.modules)."""
    name = package + "._cppsim"
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


_draws = None


def dictate_draws(values=None):
    """The next uniform draws of the compiled simulators are these; then their own generators again."""
    global _draws
    import ctypes

    lib = ctypes.CDLL(sys.modules["projectq.backends._sim._cppsim"].__file__)
    values = list(values or [])
    _draws = (ctypes.c_double * max(1, len(values)))(*values)
    lib.dst_set_draws(_draws, len(values))


def used_draws():
    import ctypes

    return ctypes.CDLL(sys.modules["projectq.backends._sim._cppsim"].__file__).dst_used_draws()


class Dice:
    """Stands in for the random module inside a back-end: dictated draws first, then the generator of the scenario."""

    def __init__(self, values=(), seed=None):
        import random

        self._v = list(values)
        self._own = random.Random(seed)
        self.used = 0
        dice = self

        class _Random(random.Random):
            def random(self):
                if dice._v:
                    dice.used += 1
                    return dice._v.pop(0)
                return super().random()

        self.Random = _Random

    def random(self):
        if self._v:
            self.used += 1
            return self._v.pop(0)
        return self._own.random()

    def __getattr__(self, k):
        return getattr(self._own, k)


class _ExtFinder:
    """Serves projectq.backends._sim._cppsim from our own build."""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name != "projectq.backends._sim._cppsim":
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, self.path)
        return importlib.util.spec_from_file_location(name, self.path, loader=loader)


ATEXIT = []  # functions the library registered for interpreter exit: teardown is a scenario operation
_ready = False


def _seam_atexit():
    def register(f, *a, **k):
        ATEXIT.append((f, a, k))
        return f

    def unregister(f):
        ATEXIT[:] = [e for e in ATEXIT if e[0] != f]

    atexit.register = register
    atexit.unregister = unregister


def run_atexit():
    """What the interpreter does at exit: last registered first; exceptions are printed and do not stop the others."""
    errs = []
    while ATEXIT:
        f, a, k = ATEXIT.pop()
        try:
            f(*a, **k)
        except Exception as e:  # noqa
            errs.append(e)
    return errs


def setup(ext=None, plain=True):
    """Import projectq with our build of the C++ simulator."""
    global _ready
    if _ready:
        return
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if ext is None and plain:
        ext = build_plain()
    if ext:
        sys.meta_path.insert(0, _ExtFinder(ext))
    _seam_atexit()
    import warnings

    warnings.simplefilter("ignore")
    import projectq  # noqa

    assert os.path.realpath(projectq.__file__).startswith(os.path.realpath(REPO)), projectq.__file__
    if ext:
        m = importlib.import_module("projectq.backends._sim._cppsim")
        assert m.__file__ == ext, m.__file__
    _ready = True


_pysim_cls = None


def pysim_class():
    """The Simulator class as it is when the C++ extension is missing (pure-Python fallback)."""
    global _pysim_cls
    if _pysim_cls is None:
        name = "projectq.backends._sim._cppsim"
        import projectq.backends._sim as pkg

        saved = sys.modules.get(name)
        had = pkg.__dict__.get("_cppsim")
        sys.modules[name] = None
        if had is not None:
            del pkg._cppsim
        try:
            p = os.path.join(SIMDIR, "_simulator.py")
            spec = importlib.util.spec_from_file_location("projectq.backends._sim._simulator_fallback", p)
            mod = importlib.util.module_from_spec(spec)
            sys.modules[spec.name] = mod
            import contextlib
            import io

            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                spec.loader.exec_module(mod)
        finally:
            if saved is not None:
                sys.modules[name] = saved
            else:
                del sys.modules[name]
            if had is not None:
                pkg._cppsim = had
        _pysim_cls = mod.Simulator
    return _pysim_cls


def quiesce():
    """Between scenarios: no garbage of an earlier scenario may act during this one."""
    import sys as _s

    for a in ("last_type", "last_value", "last_traceback", "last_exc"):
        if hasattr(_s, a):
            delattr(_s, a)
    gc.enable()
    gc.collect()
    gc.freeze()  # what is alive now is not looked at again: collections during the scenario are cheap
    gc.disable()
    ATEXIT.clear()
