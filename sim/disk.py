"""The disk seam: every file operation of the code under test passes through here.

The simulator runs the real code (rsm + the `fs` package + the standard library) against a
real scratch directory, but replaces the process's doors to the file system: open(), the os
functions, and raw reads and writes below Python's buffers.  A plan names, by operation
index, where a fault or a crash happens.  Nothing else decides anything.

Containment: an operation that would change anything outside the scratch directory is never
executed; it is recorded as an escape and refused.  sys.addaudithook backs this up for doors
that are not wrapped.
"""
import builtins
import errno
import io
import os
import stat as statmod
import sys

REAL = {n: getattr(os, n) for n in (
    "open close read write pread pwrite mkdir rename replace remove unlink rmdir listdir scandir "
    "stat lstat truncate ftruncate link symlink utime chmod fsync fdatasync sendfile "
    "copy_file_range access posix_fallocate readlink"
).split() if hasattr(os, n)}
REAL_OPEN = builtins.open
REAL_IO_OPEN = io.open
REAL_GETCWD = os.getcwd


class SimCrash(BaseException):
    """The process dies here. Not an Exception: nothing may catch it."""


ERRNOS = {
    "EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
    "EROFS": errno.EROFS, "ENOENT": errno.ENOENT, "EDQUOT": errno.EDQUOT, "EPERM": errno.EPERM,
    "EISDIR": errno.EISDIR, "ESTALE": errno.ESTALE,
}

READ_KINDS = ("open_r", "read", "list", "stat")
WRITE_KINDS = ("open_w", "write", "close_w", "mkdir", "rename", "unlink", "meta", "sync")

_active = None
_audit_installed = False
_inside = 0

_MUTATING_AUDIT = {
    "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink",
    "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "shutil.move", "os.setxattr", "os.removexattr",
    "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "socket.connect",
}


def _audit(event, args):
    d = _active
    if d is None or _inside:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) else False
        if isinstance(mode, str) and any(c in mode for c in "wax+"):
            writing = True
        if writing and not d.owns(path):
            d.escape("open-for-writing", path)
    elif event in _MUTATING_AUDIT:
        if event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "socket.connect"):
            d.escape(event, args[0] if args else "")
        else:
            for a in args[:2]:
                if isinstance(a, (str, bytes, os.PathLike)) and not d.owns(a):
                    d.escape(event, a)


class SimFile(io.FileIO):
    """A raw file whose reads, writes and close go through the simulated disk."""

    _disk = None
    _writing = False
    _path = ""
    _noclose = False

    def write(self, b):
        return self._disk._raw_write(self, b, super().write)

    def readinto(self, b):
        self._disk._op("read", self._path)
        d = self._disk
        if d.short_reads and len(b) > 1:
            n = d.short_len(len(b))
            if n < len(b):
                d.count("fault:short_read")
                mv = memoryview(b).cast("B")[:n]
                return super().readinto(mv)
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        self._disk._op("read", self._path)
        return super().read(self._disk.shorten(size))

    def readall(self):
        chunks = []
        while True:
            self._disk._op("read", self._path)
            b = super().read(65536 if not self._disk.short_reads else max(1, self._disk.short_len(65536)))
            if not b:
                return b"".join(chunks)
            chunks.append(b)

    def truncate(self, size=None):
        self._disk._op("write", self._path)
        self._disk.touch(self._path)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        disk, writing = self._disk, self._writing
        if writing and disk is not None and not disk.done and not disk.frozen:
            try:
                disk._op("close_w", self._path)
            except BaseException:
                super().close()
                raise
        super().close()


class Disk:
    """plan: {"faults": [{"at": op index, "kind": errno name | "CRASH" | "SHORT" | "TORN", ...}], ...}"""

    def __init__(self, root, extra_read=(), faults=(), short_reads=0, shuffle=None, on_op=None, tmp=None):
        self.root = os.path.realpath(root)
        self.tmp = os.path.realpath(tmp) if tmp else None
        self.extra = tuple(os.path.realpath(p) for p in extra_read)
        self.faults = {}
        self.targeted = []
        for f in faults:
            if "at" in f:
                self.faults.setdefault(f["at"], []).append(f)
            else:
                self.targeted.append(dict(f))
        self.classify = None   # relative path -> role, for targeted faults
        self.n = 0
        self.log = []          # (kind, relative path)
        self.stats = {}
        self.escapes = []
        self.frozen = False    # after a crash: every door is shut
        self.done = False
        self.dirty = {}        # path -> size known durable (None: created in this run)
        self.created = set()
        self.fds = {}          # os-level fds we handed out: fd -> (path, writing)
        self.short_reads = short_reads
        self._sr = short_reads or 1
        self.shuffle = shuffle
        self.on_op = on_op     # scheduler callback (kind, path): other actors may act here
        self.fired = []

    # -- bookkeeping -----------------------------------------------------------------------
    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def short_len(self, n):
        # deterministic pseudo-random short length from the plan's integer
        self._sr = (self._sr * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return 1 + (self._sr >> 33) % n

    def shorten(self, n):
        if not self.short_reads or n <= 1:
            return n
        m = self.short_len(n)
        if m < n:
            self.count("fault:short_read")
        return m

    def _real(self, path, follow=True):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        global _inside
        _inside += 1
        try:
            if follow:
                return os.path.realpath(path)
            d, b = os.path.split(os.path.abspath(path))
            return os.path.join(os.path.realpath(d), b)
        finally:
            _inside -= 1

    def in_tmp(self, path):
        """The system's temporary directory (a private one during a run): free to use, not judged."""
        if self.tmp is None or isinstance(path, int):
            return False
        p = self._real(path, False)
        return p == self.tmp or p.startswith(self.tmp + os.sep)

    def owns(self, path, follow=True):
        if isinstance(path, int):
            return path in self.fds
        p = self._real(path, follow)
        if self.tmp is not None and (p == self.tmp or p.startswith(self.tmp + os.sep)):
            return True
        return p == self.root or p.startswith(self.root + os.sep)

    def sees(self, path):
        p = self._real(path)
        if self.tmp is not None and (p == self.tmp or p.startswith(self.tmp + os.sep)):
            return False
        return self.owns(path) or any(p == e or p.startswith(e + os.sep) for e in self.extra)

    def rel(self, path):
        if isinstance(path, int):
            return self.fds.get(path, ("fd", False))[0]
        p = self._real(path, False)
        if p.startswith(self.root):
            return p[len(self.root):].lstrip("/") or "."
        for e in self.extra:
            if p.startswith(e):
                return "<pkg>" + p[len(e):]
        return "<ext>"

    def escape(self, what, path):
        self.escapes.append([what, str(path)])
        raise PermissionError(errno.EPERM, "simulated disk: refused an operation outside the scratch directory", str(path))

    def touch(self, path):
        self.dirty.setdefault(path, None)

    # -- the decision point ----------------------------------------------------------------
    def _op(self, kind, rel, nbytes=0):
        if self.done:
            return None
        if self.frozen:
            raise SimCrash()
        if self.on_op is not None:
            self.on_op(kind, rel)
        i = self.n
        self.n += 1
        self.log.append((kind, rel))
        act = None
        hits = list(self.faults.get(i, ()))
        for f in self.targeted:
            if f.get("spent") or f["on"] != kind:
                continue
            if f.get("role", "any") != "any" and (self.classify is None or self.classify(rel) != f["role"]):
                continue
            if f["nth"] <= 0:
                f["spent"] = True
                hits.append(f)
            else:
                f["nth"] -= 1
        for f in hits:
            k = f["kind"]
            if k == "CRASH":
                self.count("fault:crash")
                self.fired.append((i, k, kind, rel))
                self.frozen = True
                raise SimCrash()
            if k in ("SHORT", "TORN"):
                if kind == "write":
                    act = f
                continue
            self.count(f"fault:{k}@{kind}")
            self.fired.append((i, k, kind, rel))
            raise OSError(ERRNOS[k], os.strerror(ERRNOS[k]), rel)
        return act

    def _raw_write(self, f, b, real):
        mv = memoryview(b).cast("B")
        act = self._op("write", f._path, len(mv))
        self.touch(f._path)
        if act is not None and len(mv) > 1:
            n = max(1, min(len(mv) - 1, int(len(mv) * act.get("frac", 0.5))))
            self.fired.append((self.n - 1, act["kind"], "write", f._path))
            if act["kind"] == "SHORT":  # legal: fewer bytes than asked, caller must continue
                self.count("fault:short_write")
                return real(mv[:n])
            self.count("fault:torn_write_crash")
            real(mv[:n])                 # TORN: part of the data reaches the disk, then the process dies
            self.frozen = True
            raise SimCrash()
        return real(mv)

    # -- open ------------------------------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        global _inside
        if isinstance(file, int):
            if file not in self.fds:
                return REAL_IO_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            rel, w = self.fds[file]
            return self._wrap(file, mode, buffering, encoding, errors, newline, closefd, None, rel)
        writing = any(c in mode for c in "wax+")
        if self.frozen and self.sees(file):
            raise SimCrash()
        if writing and not self.owns(file):
            if self._real(file) == "/dev/null":
                return REAL_IO_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            self.escape("open-for-writing", file)
        if not self.sees(file):
            return REAL_IO_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        rel = self.rel(file)
        self._op("open_w" if writing else "open_r", rel)
        if writing:
            self.touch(rel)
        return self._wrap(file, mode, buffering, encoding, errors, newline, closefd, opener, rel)

    def _wrap(self, file, mode, buffering, encoding, errors, newline, closefd, opener, rel):
        """io.open() semantics over a SimFile."""
        global _inside
        binary, text = "b" in mode, "t" in mode
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
        modes = set(mode)
        rawmode = "".join(c for c in mode if c in "rwax+")
        _inside += 1
        try:
            raw = SimFile(file, rawmode, closefd, opener)
        finally:
            _inside -= 1
        raw._disk, raw._path, raw._writing = self, rel, any(c in mode for c in "wax+")
        try:
            raw.name = file
        except Exception:
            pass
        line_buffering = False
        if buffering == 1:
            buffering, line_buffering = -1, not binary
        if buffering < 0:
            buffering = 8192
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if "+" in modes:
            buf = io.BufferedRandom(raw, buffering)
        elif modes & {"w", "a", "x"}:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, line_buffering)
        t.mode = mode
        return t

    # -- os.* ------------------------------------------------------------------------------
    def install(self):
        global _active, _audit_installed
        assert _active is None
        if not _audit_installed:
            sys.addaudithook(_audit)
            _audit_installed = True
        builtins.open = self.open
        io.open = self.open
        for name in ("open", "close", "read", "write", "mkdir", "rename", "replace", "remove", "unlink", "rmdir", "listdir",
                     "scandir", "stat", "lstat", "truncate", "ftruncate", "link", "symlink", "utime", "chmod", "fsync",
                     "fdatasync", "sendfile", "copy_file_range"):
            if name in REAL:
                setattr(os, name, getattr(self, "os_" + name))
        # `from os import scandir/sendfile` style captures inside the fs package
        for modname in ("fs.osfs", "shutil", "fs._fscompat", "posix", "pathlib", "tempfile"):
            m = sys.modules.get(modname)
            if m is None or modname == "posix":
                continue
            for name in ("scandir", "sendfile", "stat"):
                if getattr(m, name, None) is REAL.get(name):
                    setattr(m, name, getattr(self, "os_" + name))
                    self._captured = getattr(self, "_captured", []) + [(m, name)]
        import shutil
        self._shutil_fd = shutil._use_fd_functions
        shutil._use_fd_functions = False  # path-based rmtree, so that every step is seen
        _active = self
        return self

    def uninstall(self):
        global _active
        builtins.open = REAL_OPEN
        io.open = REAL_IO_OPEN
        for name, f in REAL.items():
            setattr(os, name, f)
        for m, name in getattr(self, "_captured", []):
            setattr(m, name, REAL[name])
        self._captured = []
        import shutil
        shutil._use_fd_functions = self._shutil_fd
        _active = None
        self.done = True

    __enter__ = install

    def __exit__(self, *a):
        self.uninstall()
        return False

    def _call(self, kind, path, fn, *args, mutates=False, follow=True, rel=None, **kw):
        global _inside
        if mutates and self.in_tmp(path):
            return fn(*args, **kw)
        if mutates and not self.owns(path, follow):
            self.escape(kind, path)
        if not mutates and not isinstance(path, int) and not self.sees(path):
            return fn(*args, **kw)
        r = rel or self.rel(path)
        self._op(kind, r)
        if mutates:
            self.touch(r)
        _inside += 1
        try:
            return fn(*args, **kw)
        finally:
            _inside -= 1

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        global _inside
        path = self._at(path, dir_fd)
        dir_fd = None
        writing = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if writing and not self.owns(path):
            self.escape("os.open-for-writing", path)
        if not self.sees(path):
            return REAL["open"](path, flags, mode, dir_fd=dir_fd)
        rel = self.rel(path)
        self._op("open_w" if writing else "open_r", rel)
        if writing:
            self.touch(rel)
        _inside += 1
        try:
            fd = REAL["open"](path, flags, mode, dir_fd=dir_fd)
        finally:
            _inside -= 1
        self.fds[fd] = (rel, writing)
        return fd

    def os_close(self, fd):
        self.fds.pop(fd, None)
        return REAL["close"](fd)

    def os_read(self, fd, n):
        if fd in self.fds:
            self._op("read", self.fds[fd][0])
            n = self.shorten(n)
        return REAL["read"](fd, n)

    def os_write(self, fd, b):
        if fd in self.fds:
            class _F:
                _path = self.fds[fd][0]
            return self._raw_write(_F, b, lambda mv: REAL["write"](fd, mv))
        return REAL["write"](fd, b)

    def os_mkdir(self, path, mode=0o777, *, dir_fd=None):
        path = self._at(path, dir_fd)
        return self._call("mkdir", path, REAL["mkdir"], path, mode, mutates=True, follow=False)

    def os_rename(self, src, dst, **kw):
        return self._two("rename", src, dst, REAL["rename"])

    def os_replace(self, src, dst, **kw):
        return self._two("rename", src, dst, REAL["replace"])

    def os_link(self, src, dst, **kw):
        return self._two("rename", src, dst, REAL["link"])

    def os_symlink(self, src, dst, *a, **kw):
        return self._call("meta", dst, REAL["symlink"], src, dst, mutates=True, follow=False)

    def _two(self, kind, src, dst, fn):
        global _inside
        for p in (src, dst):
            if not self.owns(p, False):
                self.escape(kind, p)
        self._op(kind, self.rel(dst))
        self.touch(self.rel(dst))
        _inside += 1
        try:
            return fn(src, dst)
        finally:
            _inside -= 1

    @staticmethod
    def _at(path, dir_fd):
        if dir_fd is None:
            return path
        return os.path.join(REAL["readlink"](f"/proc/self/fd/{dir_fd}"), os.fsdecode(path))

    def os_remove(self, path, *, dir_fd=None):
        path = self._at(path, dir_fd)
        return self._call("unlink", path, REAL["remove"], path, mutates=True, follow=False)

    os_unlink = os_remove

    def os_rmdir(self, path, *, dir_fd=None):
        path = self._at(path, dir_fd)
        return self._call("unlink", path, REAL["rmdir"], path, mutates=True, follow=False)

    def os_listdir(self, path="."):
        r = self._call("list", path, REAL["listdir"], path) if not isinstance(path, int) else REAL["listdir"](path)
        return self.shuffle(r) if self.shuffle and not isinstance(path, int) and self.sees(path) else r

    def os_scandir(self, path="."):
        if isinstance(path, int) or not self.sees(path):
            return REAL["scandir"](path)
        self._op("list", self.rel(path))
        global _inside
        _inside += 1
        try:
            it = REAL["scandir"](path)
        finally:
            _inside -= 1
        return _ScanIter(self, it, self.rel(path))

    def os_stat(self, path, *, dir_fd=None, follow_symlinks=True):
        if isinstance(path, int) or self.done or not self.sees(path):
            return REAL["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        self._op("stat", self.rel(path))
        return REAL["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)

    def os_lstat(self, path, *, dir_fd=None):
        return REAL["lstat"](path, dir_fd=dir_fd)  # realpath uses it; never faulted

    def os_truncate(self, path, length):
        if isinstance(path, int):
            return self.os_ftruncate(path, length)
        return self._call("write", path, REAL["truncate"], path, length, mutates=True)

    def os_ftruncate(self, fd, length):
        if fd in self.fds:
            self._op("write", self.fds[fd][0])
        return REAL["ftruncate"](fd, length)

    def os_utime(self, path, *a, **kw):
        return self._call("meta", path, REAL["utime"], path, *a, mutates=True, **kw)

    def os_chmod(self, path, mode, **kw):
        return self._call("meta", path, REAL["chmod"], path, mode, mutates=True, **kw)

    def os_fsync(self, fd):
        if fd in self.fds:
            self._op("sync", self.fds[fd][0])
        return REAL["fsync"](fd)

    def os_fdatasync(self, fd):
        return self.os_fsync(fd)

    def os_sendfile(self, out_fd, in_fd, offset, count, *a, **kw):
        # forces every copier onto the read/write path, where faults are injected
        raise OSError(errno.ENOTSOCK, "simulated disk: sendfile not supported")

    def os_copy_file_range(self, *a, **kw):
        raise OSError(errno.EXDEV, "simulated disk: copy_file_range not supported")


class _ScanIter:
    def __init__(self, disk, it, rel):
        self._d, self._it, self._rel = disk, it, rel
        entries = sorted(it, key=lambda e: e.name if isinstance(e.name, str) else os.fsdecode(e.name))
        if disk.shuffle:
            entries = disk.shuffle(entries)
        self._entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        e = next(self._entries)
        self._d._op("list", self._rel)
        return e

    def close(self):
        self._it.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def snapshot(root):
    """{relative path: bytes | None for a directory}, using the real doors."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for n in dirs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else None
        for n in sorted(files):
            p = os.path.join(d, n)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                with REAL_IO_OPEN(p, "rb") as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out


def is_reg(path):
    return statmod.S_ISREG(os.lstat(path).st_mode)
