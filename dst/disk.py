"""A simulated disk: a scratch directory reached through a patched open().

Real files hold the durable state, so whatever file API the code under test
uses works. The seam is builtins.open / io.open and os.remove / os.unlink /
os.rename / os.replace: for paths below the scratch directory the disk counts
the operations and injects the faults of the current plan. What a program wrote
reaches the file only at flush, at close, or when the page cache (CAP bytes)
overflows; a crash keeps the durable part plus the fraction of the unwritten
tail the plan says, which is how writes get lost or torn.
"""
import builtins
import errno
import io
import os
import shutil

from .engine import InjectedIOError

CAP = 8192
_real = {"open": builtins.open, "io_open": io.open, "remove": os.remove, "unlink": os.unlink,
         "rename": os.rename, "replace": os.replace}


class SimCrash(BaseException):
    """The process is gone; only durable state is left."""


class SimFile:
    """Write side of a file on the simulated disk."""

    def __init__(self, disk, path, real, text):
        self._d, self.name, self._f, self._text = disk, path, real, text
        self._buf = []
        self._n = 0
        self.closed = False
        self.mode = getattr(real, "mode", "w")
        disk.files.append(self)

    def _sync(self):
        for x in self._buf:
            self._f.write(x)
        self._buf, self._n = [], 0
        self._f.flush()

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self._d.dead:
            raise SimCrash()
        kind = self._d.hit("write", self.name)
        if kind:
            part = s[:int(len(s) * self._d.frac)]
            if kind == "crash":
                self._buf.append(part)
                self._d.crash()
            if self._text or isinstance(s, (bytes, bytearray)):
                self._buf.append(part)
            raise InjectedIOError(errno.ENOSPC if kind == "full" else errno.EIO, "injected: " + kind, self.name)
        self._buf.append(s)
        self._n += len(s)
        if self._n > CAP:
            self._sync()
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self._d.dead:
            raise SimCrash()
        self._sync()

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self._d.dead:
            return
        kind = self._d.hit("close", self.name)
        if kind == "crash":
            self.closed = False
            self._d.crash()
        if kind:
            # the delayed write fails: the tail is torn
            self._tear()
            self._f.close()
            self._d.forget(self)
            raise InjectedIOError(errno.ENOSPC if kind == "full" else errno.EIO, "injected: " + kind, self.name)
        self._sync()
        self._f.close()
        self._d.forget(self)

    def _tear(self):
        if not self._buf:
            return
        tail = self._buf[0][:0].join(self._buf)
        self._f.write(tail[:int(len(tail) * self._d.frac)])
        self._f.flush()
        self._buf, self._n = [], 0

    def _die(self):
        self._tear()
        self._f.close()
        self.closed = True

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def tell(self):
        self._sync()
        return self._f.tell()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        # a dropped file object is closed by the interpreter, faults cannot surface
        try:
            if not self.closed and not self._d.dead:
                self._sync()
                self._f.close()
                self.closed = True
                self._d.forget(self)
        except Exception:
            pass


class SimDisk:
    def __init__(self, ctx, name):
        base = os.environ.get("DST_SCRATCH") or "/tmp"
        self.root = os.path.join(base, f"disk-{os.getpid()}-{name}")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.ctx = ctx
        self.files = []
        self.count = {}
        self.frac = 0.0
        self.plan = None
        self.dead = False
        self.opened = []        # (mode, basename), in order
        self.hits = 0
        self.on = False

    # ------------------------------------------------------------ control
    def arm(self, plan):
        """plan: None or {"op": "open"|"write"|"close"|"remove", "nth": n, "kind": "full"|"eio"|"crash", "frac": f}"""
        self.count = {}
        self.plan = plan if isinstance(plan, dict) else None
        fr = self.plan.get("frac", 0) if self.plan else 0
        self.frac = min(1.0, max(0.0, float(fr) if isinstance(fr, (int, float)) else 0.0))
        self.hits = 0
        self.dead = False

    def disarm(self):
        self.plan = None
        self.dead = False
        return self.hits

    def hit(self, op, path):
        n = self.count[op] = self.count.get(op, 0) + 1
        p = self.plan
        if not p or p.get("op") != op or p.get("kind") not in ("full", "eio", "crash"):
            return None
        m = p.get("match")
        if isinstance(m, str) and m not in os.path.basename(path):
            return None
        k = self.count["m:" + op] = self.count.get("m:" + op, 0) + 1
        if k != p.get("nth", 1):
            return None
        self.hits += 1
        self.ctx.fault(f"disk_{op}_{p['kind']}")
        return p["kind"]

    def crash(self):
        """The process dies here."""
        self.dead = True
        for f in list(self.files):
            f._die()
        self.files = []
        raise SimCrash()

    def kill(self):
        """The process is killed between two steps."""
        try:
            self.crash()
        except SimCrash:
            pass
        self.dead = False

    def forget(self, f):
        if f in self.files:
            self.files.remove(f)

    # -------------------------------------------------------------- patch
    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def __enter__(self):
        self.cwd = os.getcwd()
        os.chdir(self.root)     # relative names keep messages the same in every run
        self.on = True

        def sim_open(file, mode="r", *a, **kw):
            p = self.mine(file) if not isinstance(file, int) else None
            if p is None:
                return _real["open"](file, mode, *a, **kw)
            if self.dead:
                raise SimCrash()
            kind = self.hit("open", p)
            if kind == "crash":
                self.crash()
            if kind:
                raise InjectedIOError(errno.ENOSPC if kind == "full" else errno.EIO, "injected: " + kind, p)
            self.opened.append((mode, os.path.basename(p)))
            f = _real["open"](file, mode, *a, **kw)
            if "+" not in mode and any(c in mode for c in "wax"):
                return SimFile(self, p, f, "b" not in mode)
            return f

        def wrap(op):
            def fn(path, *a, **kw):
                p = self.mine(path)
                if p is not None:
                    if self.dead:
                        raise SimCrash()
                    kind = self.hit("remove" if op in ("remove", "unlink") else "rename", p)
                    if kind == "crash":
                        self.crash()
                    if kind:
                        raise InjectedIOError(errno.EIO, "injected: " + kind, p)
                return _real[op](path, *a, **kw)
            return fn
        builtins.open = io.open = sim_open
        for op in ("remove", "unlink", "rename", "replace"):
            setattr(os, op, wrap(op))
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        builtins.open = _real["open"]
        io.open = _real["io_open"]
        for op in ("remove", "unlink", "rename", "replace"):
            setattr(os, op, _real[op])
        self.on = False
        return False

    # -------------------------------------------------------------- helpers
    def path(self, name):
        return os.path.join(self.root, name)

    def read(self, name):
        with _real["open"](self.path(name)) as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def ls(self):
        return sorted(os.listdir(self.root))

    def close(self):
        for f in list(self.files):
            try:
                f._f.close()
            except Exception:
                pass
            f.closed = True
        self.files = []
        shutil.rmtree(self.root, ignore_errors=True)
