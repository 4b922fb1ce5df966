"""A disk under the simulator: real files of a scratch directory, reached through proxies that count, fail, tear and crash."""
import builtins
import contextlib
import errno
import io
import os
import random


class Crash(BaseException):
    """The process is gone; nothing it does afterwards has any effect."""


ERRS = {
    "open_r": ["EACCES", "EMFILE", "EIO", "ENFILE"],
    "open_w": ["EACCES", "EROFS", "ENOSPC", "EMFILE", "EDQUOT"],
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
    "read": ["EIO"],
    "fsync": ["EIO", "ENOSPC"],
    "close": ["EIO", "EDQUOT"],
    "move": ["EACCES", "EIO", "EROFS", "ENOSPC"],
    "remove": ["EACCES", "EROFS"],
    "stat": ["EACCES", "EIO"],
}


class Disk:
    """State of the disk during one operation of the program under test."""

    def __init__(self, root, faults, rng, hook=None):
        self.root = os.path.realpath(root)
        self.faults = {f["at"]: f for f in faults}
        self.rng = rng
        self.n = 0
        self.dead = False
        self.fired = []  # (kind, call, error)
        self.sticky = None
        self.ops = []
        self.chunk = 0  # small buffers: more system calls
        self.hook = hook  # called with the number of the call about to happen
        # what survives a power failure: directory entries and contents by inode
        self.entries, self.contents = {}, {}
        self.sync_all()

    # ---------------------------------------------------------------- durability
    def files(self):
        for d, _, names in os.walk(self.root):
            for x in names:
                p = os.path.join(d, x)
                if not os.path.islink(p):
                    yield p

    def sync_all(self):
        self.entries = {}
        self.contents = {}
        for p in self.files():
            ino = os.stat(p).st_ino
            self.entries[p] = ino
            with real_open(p, "rb") as f:
                self.contents[ino] = f.read()

    def sync_fd(self, fd):
        st = os.fstat(fd)
        for p in self.files():
            if os.stat(p).st_ino == st.st_ino:
                with real_open(p, "rb") as f:
                    self.contents[st.st_ino] = f.read()

    def lose_power(self):
        """Unsynced data and directory changes may be lost, wholly or in part."""
        rng = self.rng
        now = {p: os.stat(p).st_ino for p in self.files()}
        end = {}
        for p in sorted(set(now) | set(self.entries)):
            ino = now.get(p)
            if now.get(p) != self.entries.get(p) and rng.random() < 0.4:
                ino = self.entries.get(p)  # this change of the directory did not reach the disk
            if ino is None:
                end[p] = None
                continue
            cur = None
            if p in now and now[p] == ino:
                with real_open(p, "rb") as f:
                    cur = f.read()
            old = self.contents.get(ino)
            if cur is None or cur == old:
                end[p] = old if old is not None else b""
            else:
                k = rng.choice([0, rng.randrange(len(cur) + 1), len(cur)])
                end[p] = old if old is not None and rng.random() < 0.3 else cur[:k]
        for p, c in end.items():
            if os.path.lexists(p):
                real_remove(p)
            if c is not None:
                with real_open(p, "wb") as f:
                    f.write(c)

    # ---------------------------------------------------------------- one call
    def call(self, kind, what=""):
        """Account for one call; returns a fault that takes part in it, or raises."""
        if self.dead:
            raise Crash()
        i = self.n
        self.n += 1
        self.ops.append(kind)
        if self.hook:
            self.hook(i)
        f = self.faults.get(i)
        if f is None and self.sticky and (kind in ("write", "open_w") or self.sticky.get("all")):
            f = dict(self.sticky, frac=0.0)
        if f is None:
            return None
        k = f["kind"]
        if k in ("crash", "power"):
            if kind == "write":
                return f
            self.die(f, kind)
        if k == "intr":
            self.fired.append(("intr", kind, ""))
            raise KeyboardInterrupt()
        if k == "short":
            return f if kind in ("write", "read") else None
        if f.get("sticky"):
            self.sticky = f
        if kind == "write":
            return f
        err = ERRS[kind][f["err"] % len(ERRS[kind])]
        self.fired.append(("io", kind, err))
        if kind == "close":
            return OSError(getattr(errno, err), os.strerror(getattr(errno, err)))
        raise OSError(getattr(errno, err), os.strerror(getattr(errno, err)), what)

    def die(self, f, kind):
        self.fired.append((f["kind"], kind, ""))
        self.dead = True
        if f["kind"] == "power":
            self.lose_power()
        raise Crash()

    def end(self):
        """The operation is over; a power failure may still be due."""
        late = [f for at, f in sorted(self.faults.items()) if f["kind"] == "power" and at >= self.n]
        if late and not self.dead:
            self.fired.append(("power", "afterwards", ""))
            self.dead = True
            self.lose_power()

    def mine(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.realpath(os.path.dirname(os.path.abspath(os.fsdecode(path))))
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + os.sep)


class Raw(io.FileIO):
    """System calls on one file."""

    disk = None

    def write(self, data):
        if self.disk is None:
            return super().write(data)
        f = self.disk.call("write")
        if f is None:
            return super().write(data)
        b = bytes(data)
        k = int(f.get("frac", 0.5) * len(b))
        if f["kind"] == "short":
            self.disk.fired.append(("short", "write", ""))
            return super().write(b[: max(1, k)])
        super().write(b[:k])
        if f["kind"] in ("crash", "power"):
            self.disk.die(f, "write")
        err = ERRS["write"][f["err"] % len(ERRS["write"])]
        self.disk.fired.append(("io", "write", err))
        raise OSError(getattr(errno, err), os.strerror(getattr(errno, err)))

    def readinto(self, buf):
        if self.disk is not None:
            f = self.disk.call("read")
            if f is not None and len(buf) > 1:
                self.disk.fired.append(("short", "read", ""))
                return super().readinto(memoryview(buf)[: max(1, int(f.get("frac", 0.5) * len(buf)))])
        return super().readinto(buf)

    def readall(self):
        if self.disk is not None:
            self.disk.call("read")
        return super().readall()

    def read(self, size=-1):
        if self.disk is not None:
            self.disk.call("read")
        return super().read(size)

    def close(self):
        d = self.disk
        if d is None or self.closed:
            super().close()
            return
        try:
            e = d.call("close")
        finally:
            super().close()
        if e is not None:
            raise e


real_open = io.open
real_remove = os.remove


@contextlib.contextmanager
def mounted(disk):
    """Everything that touches files of the scratch directory goes through `disk`."""
    saved = [(builtins, "open"), (io, "open")] + [(os, x) for x in
             ("open", "replace", "rename", "link", "symlink", "remove", "unlink", "fsync", "fdatasync", "write", "truncate", "ftruncate")]
    saved = [(m, n, getattr(m, n)) for m, n in saved]
    fds = set()
    orig = {n: f for m, n, f in saved if m is os}

    def fake_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not (disk.mine(file) or (isinstance(file, int) and file in fds)):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        binary = "b" in mode
        raw_mode = mode.replace("b", "").replace("t", "")
        writing = any(c in mode for c in "wax+")
        if not isinstance(file, int):
            disk.call("open_w" if writing else "open_r", file)
        raw = Raw(file, raw_mode, closefd, opener)
        raw.disk = disk
        fds.add(raw.fileno())
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else disk.chunk or io.DEFAULT_BUFFER_SIZE
        buf = io.BufferedRandom(raw, size) if "+" in mode else (io.BufferedWriter(raw, size) if writing else io.BufferedReader(raw, size))
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        if disk.chunk:
            t._CHUNK_SIZE = disk.chunk
        t.mode = mode
        return t

    def os_open(path, flags, mode=0o777, *a, **k):
        if not disk.mine(path):
            return orig["open"](path, flags, mode, *a, **k)
        disk.call("open_w" if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) else "open_r", path)
        fd = orig["open"](path, flags, mode, *a, **k)
        fds.add(fd)
        return fd

    def two(name):
        def f(src, dst, *a, **k):
            if disk.mine(src) or disk.mine(dst):
                disk.call("move", dst)
            return orig[name](src, dst, *a, **k)

        return f

    def rem(name):
        def f(path, *a, **k):
            if disk.mine(path):
                disk.call("remove", path)
            return orig[name](path, *a, **k)

        return f

    def sync(name):
        def f(fd, *a):
            n = fd if isinstance(fd, int) else fd.fileno()
            disk.call("fsync")
            out = orig[name](fd, *a)
            disk.sync_fd(n)
            return out

        return f

    def os_write(fd, data):
        if fd not in fds:
            return orig["write"](fd, data)
        f = disk.call("write")
        if f is None:
            return orig["write"](fd, data)
        k = int(f.get("frac", 0.5) * len(data))
        n = orig["write"](fd, bytes(data)[: max(1, k) if f["kind"] == "short" else k])
        if f["kind"] == "short":
            return n
        if f["kind"] in ("crash", "power"):
            disk.die(f, "write")
        disk.fired.append(("io", "write", "ENOSPC"))
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))

    builtins.open = io.open = fake_open
    os.open = os_open
    for n in ("replace", "rename", "link", "symlink"):
        setattr(os, n, two(n))
    for n in ("remove", "unlink"):
        setattr(os, n, rem(n))
    for n in ("fsync", "fdatasync"):
        setattr(os, n, sync(n))
    os.write = os_write
    try:
        yield disk
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def seeded_faults(rng, kinds):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(kinds)
        out.append({"at": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), "kind": k, "err": rng.randrange(12), "frac": round(rng.random(), 3),
                    "sticky": int(rng.random() < 0.3), "all": int(rng.random() < 0.3)})
    return out


def dice(seed):
    return random.Random(seed)
