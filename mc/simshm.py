"""
A simulated POSIX shared-memory file system underneath CPython's *real*
multiprocessing.shared_memory.SharedMemory class.

Only the system-call layer that class uses (shm_open / shm_unlink / ftruncate /
fstat / mmap / memoryview / close and the resource tracker) is substituted; the
SharedMemory class itself and everything in dustgoggles above it is the real
code.  Every operation another process could observe is a *point*: a hook may
switch to another simulated process, inject a fault, or merely count there.

In *dual* mode every operation is also performed on the real /dev/shm (under a
private name prefix) and each answer is compared: that is how explored
histories and schedules are validated against the real system.
"""
import contextlib
import errno
import itertools
import multiprocessing.shared_memory as _shm_mod
import os as _real_os
import types

_REAL = {
    k: getattr(_shm_mod, k)
    for k in ("_posixshmem", "os", "mmap", "resource_tracker")
}


class Mismatch(RuntimeError):
    """the simulated and the real shared memory disagree."""


class Dual:
    """the real /dev/shm, driven in lockstep."""

    def __init__(self):
        self.prefix = f"mcdual{_real_os.getpid()}x"
        self.made = set()
        self.fds = {}
        self.ops = 0

    def name(self, path):
        return "/" + self.prefix + path.lstrip("/")

    def open(self, path, flags, mode):
        if flags & _real_os.O_CREAT:
            self.made.add(self.name(path))
        return _REAL["_posixshmem"].shm_open(self.name(path), flags, mode)

    def unlink(self, path):
        return _REAL["_posixshmem"].shm_unlink(self.name(path))

    def cleanup(self):
        for name in self.made:
            try:
                _REAL["_posixshmem"].shm_unlink(name)
            except OSError:
                pass
        for fd in self.fds.values():
            _real_os.close(fd)
        self.fds.clear()

    def agree(self, what, sim, real):
        self.ops += 1
        if sim != real:
            raise Mismatch(f"{what}: simulated {sim!r}, real {real!r}")


def _outcome(fn, *args):
    try:
        return "ok", fn(*args)
    except Exception as ex:
        return type(ex).__name__ + str(getattr(ex, "errno", "")), ex


DUAL = False


def set_dual(on):
    """switch lockstep execution on the real /dev/shm on or off."""
    global DUAL
    DUAL = on
    fresh_fs()


_FD = itertools.count(1 << 20)   # never a real descriptor, never reused


class Inode:
    __slots__ = ("data", "ident", "name", "gen", "shared")

    def __init__(self, ident, name, gen):
        self.shared = False
        self.gen = gen          # how many blocks had this name before
        self.data = bytearray()
        self.ident = ident
        self.name = name


class SimFS:
    """one simulated /dev/shm plus the table of open descriptors."""

    def __init__(self):
        self.names = {}
        self.fds = {}
        self.gens = {}
        self.next_ino = 1
        self.hook = None       # callable(kind, name) run *before* an operation
        self.observe = None    # callable(kind, name, result) run after it
        self.dual = Dual() if DUAL else None

    def point(self, kind, name):
        if self.hook is not None:
            self.hook(kind, name)

    def seen(self, kind, name, result):
        if self.observe is not None:
            self.observe(kind, name, result)

    def listing(self):
        return sorted(self.names)

    def snapshot(self):
        return {k: bytes(v.data) for k, v in self.names.items()}


FS = SimFS()


def current_fs():
    return FS


def fresh_fs():
    global FS
    if FS.dual is not None:
        FS.dual.cleanup()
    FS = SimFS()
    return FS


def _check_name(path):
    if not isinstance(path, str):
        raise TypeError("shm_open() argument 'path' must be str")
    if "\0" in path:
        raise ValueError("embedded null character")
    body = path.lstrip("/")
    raw = body.encode("utf-8")
    if "/" in body or body == "":
        raise OSError(errno.EINVAL, _real_os.strerror(errno.EINVAL), path)
    if body in (".", ".."):
        raise OSError(errno.EINVAL, _real_os.strerror(errno.EINVAL), path)
    if len(raw) > 255:
        raise OSError(
            errno.ENAMETOOLONG, _real_os.strerror(errno.ENAMETOOLONG), path)
    return body


class _Posix:
    @staticmethod
    def shm_open(path, flags, mode=0o777):
        if FS.dual is None:
            return _Posix._shm_open(path, flags, mode)
        fs = FS
        sim = _outcome(_Posix._shm_open, path, flags, mode)
        if sim[0] == "Abort":
            raise sim[1]
        real = _outcome(fs.dual.open, path, flags, mode)
        fs.dual.agree(f"open {path} {flags}", sim[0], real[0])
        if sim[0] != "ok":
            raise sim[1]
        fs.dual.fds[sim[1]] = real[1]
        return sim[1]

    @staticmethod
    def shm_unlink(path):
        if FS.dual is None:
            return _Posix._shm_unlink(path)
        fs = FS
        sim = _outcome(_Posix._shm_unlink, path)
        real = _outcome(fs.dual.unlink, path)
        fs.dual.agree(f"unlink {path}", sim[0], real[0])
        if sim[0] != "ok":
            raise sim[1]

    @staticmethod
    def _shm_open(path, flags, mode=0o777):
        fs = FS
        name = _check_name(path)
        creating = bool(flags & _real_os.O_CREAT)
        kind = "create" if creating else "open"
        fs.point(kind, name)
        node = fs.names.get(name)
        if creating:
            if node is not None and flags & _real_os.O_EXCL:
                fs.seen(kind, name, "EEXIST")
                raise FileExistsError(
                    errno.EEXIST, _real_os.strerror(errno.EEXIST), path
                )
            if node is None:
                gen = fs.gens.get(name, 0)
                fs.gens[name] = gen + 1
                node = Inode(fs.next_ino, name, gen)
                fs.next_ino += 1
                fs.names[name] = node
            fs.seen(kind, name, "ok")
        else:
            if node is None:
                fs.seen(kind, name, "ENOENT")
                raise FileNotFoundError(
                    errno.ENOENT, _real_os.strerror(errno.ENOENT), path
                )
            fs.seen(kind, name, ("ok", len(node.data), node.gen))
        fd = next(_FD)
        fs.fds[fd] = node
        return fd

    @staticmethod
    def _shm_unlink(path):
        fs = FS
        name = _check_name(path)
        fs.point("unlink", name)
        if name not in fs.names:
            fs.seen("unlink", name, "ENOENT")
            raise FileNotFoundError(
                errno.ENOENT, _real_os.strerror(errno.ENOENT), path
            )
        del fs.names[name]
        fs.seen("unlink", name, "ok")


class _OS:
    def __getattr__(self, attr):
        return getattr(_real_os, attr)

    @staticmethod
    def ftruncate(fd, size):
        fs = FS
        node = fs.fds.get(fd)
        if node is None:
            return _real_os.ftruncate(fd, size)
        fs.point("truncate", node.name)
        if len(node.data) != size:
            old = bytes(node.data[:size])
            node.data = bytearray(size)
            node.data[: len(old)] = old
        if fs.dual is not None:
            _real_os.ftruncate(fs.dual.fds[fd], size)
        fs.seen("truncate", node.name, size)

    @staticmethod
    def fstat(fd):
        node = FS.fds.get(fd)
        if node is None:
            return _real_os.fstat(fd)
        if FS.dual is not None:
            FS.dual.agree(f"size of {node.name}", len(node.data),
                          _real_os.fstat(FS.dual.fds[fd]).st_size)
        return types.SimpleNamespace(st_size=len(node.data))

    @staticmethod
    def close(fd):
        # descriptors of an abandoned (older) file system are simply dropped
        if fd >= 1 << 20:
            FS.fds.pop(fd, None)
            if FS.dual is not None and fd in FS.dual.fds:
                _real_os.close(FS.dual.fds.pop(fd))
            return
        return _real_os.close(fd)


class _Map:
    """stands in for an mmap object over an inode."""

    def __init__(self, fd, size):
        dual, self.real = FS.dual, None
        if dual is not None:
            real = _outcome(_REAL["mmap"].mmap, dual.fds[fd], size)
            dual.agree(f"map {fd}", "ValueError" if size == 0 else "ok",
                       real[0])
            self.real = real[1]
        if size == 0:
            raise ValueError("cannot mmap an empty file")
        self.node = FS.fds[fd]
        self.data = self.node.data
        self.fs = FS

    def close(self):
        self.data = None
        if self.real is not None:
            self.real.close()
            self.real = None


class _View:
    """stands in for the memoryview over an mmap object."""

    def __init__(self, mapping):
        self._fs = mapping.fs
        self._node = mapping.node
        self._mv = memoryview(mapping.data)
        self._real = (None if mapping.real is None
                      else memoryview(mapping.real))
        self._exports = 0

    # -- reads ------------------------------------------------------------
    def _read(self):
        self._fs.point("read", self._node.name)
        if self._real is not None:
            if self._node.shared:      # written through an exported buffer
                self._mv[:] = self._real
            self._fs.dual.agree(f"read {self._node.name}",
                                bytes(self._mv), bytes(self._real))
        out = bytes(self._mv)
        self._fs.seen("read", self._node.name, (self._node.ident, out))

    def tobytes(self, *a):
        self._read()
        return self._mv.tobytes(*a)

    def __bytes__(self):
        return self.tobytes()

    def __getitem__(self, ix):
        self._read()
        out = self._mv[ix]
        return bytes(out) if isinstance(out, memoryview) else out

    def tolist(self):
        self._read()
        return self._mv.tolist()

    def hex(self, *a):
        self._read()
        return self._mv.hex(*a)

    def __iter__(self):
        self._read()
        return iter(bytes(self._mv))

    def __eq__(self, other):
        self._read()
        return self._mv == other

    __hash__ = None

    # -- writes -----------------------------------------------------------
    def __setitem__(self, ix, value):
        if isinstance(value, _View):
            value = value.tobytes()
        self._fs.point("write", self._node.name)
        if self._real is not None:
            sim = _outcome(self._mv.__setitem__, ix, value)
            real = _outcome(self._real.__setitem__, ix, value)
            self._fs.dual.agree(f"write {self._node.name}", sim[0], real[0])
            if sim[0] != "ok":
                raise sim[1]
        else:
            self._mv[ix] = value
        self._fs.seen("write", self._node.name, bytes(self._mv))

    # -- buffer protocol (numpy, pickle, bytes(), int.from_bytes, ...) ------
    def __buffer__(self, flags):
        self._read()
        self._fs.point("write", self._node.name)
        self._fs.seen("write", self._node.name, "exported")
        self._exports += 1
        if self._real is not None:
            self._node.shared = True
            return memoryview(self._real)
        return memoryview(self._mv)

    def __release_buffer__(self, view):
        self._exports -= 1
        view.release()

    def __len__(self):
        return len(self._mv)

    @property
    def nbytes(self):
        return self._mv.nbytes

    def __getattr__(self, attr):
        return getattr(self._mv, attr)

    def release(self):
        if self._exports:
            raise BufferError(
                "memoryview has %d exported buffer%s"
                % (self._exports, "s" if self._exports > 1 else "")
            )
        self._mv.release()
        if self._real is not None:
            self._real.release()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.release()


class _NoTracker:
    @staticmethod
    def register(*_a, **_k):
        pass

    @staticmethod
    def unregister(*_a, **_k):
        pass


# -- the directory view of the same file system: /dev/shm ------------------

SHM_DIR = "/dev/shm"
REAL_OS = {
    k: getattr(_real_os, k)
    for k in ("listdir", "scandir", "stat", "unlink", "remove", "access")
}


def _entry(path):
    """name of the simulated block a path denotes, "" for the directory."""
    if isinstance(path, _real_os.PathLike):
        path = _real_os.fspath(path)
    if not isinstance(path, str) or not path.startswith(SHM_DIR):
        return None
    rest = path[len(SHM_DIR):]
    if rest.strip("/") == "":
        return ""
    if not rest.startswith("/") or "/" in rest.strip("/"):
        return None
    return rest.strip("/")


class _DirEntry:
    def __init__(self, name):
        self.name, self.path = name, f"{SHM_DIR}/{name}"

    def __fspath__(self):
        return self.path

    def is_file(self, **_):
        return True

    def is_dir(self, **_):
        return False

    is_symlink = is_dir

    def stat(self, **_):
        return _dir_stat(self.path)


class _DirIter:
    def __init__(self, names):
        self.it = iter([_DirEntry(n) for n in names])

    def __iter__(self):
        return self.it

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def close(self):
        pass


def _dir_listing():
    # "*" is no block's name: listing concerns all of them
    FS.point("list", "*")
    names = FS.listing()
    FS.seen("list", "*", tuple(names))
    return names


def _dir_listdir(path="."):
    return _dir_listing() if _entry(path) == "" else \
        REAL_OS["listdir"](path)


def _dir_scandir(path="."):
    return _DirIter(_dir_listing()) if _entry(path) == "" else \
        REAL_OS["scandir"](path)


def _dir_look(name):
    FS.point("open", name)
    node = FS.names.get(name)
    if node is None:
        FS.seen("open", name, "ENOENT")
        raise FileNotFoundError(
            errno.ENOENT, _real_os.strerror(errno.ENOENT), name)
    FS.seen("open", name, ("ok", len(node.data), node.gen))
    return node


def _dir_stat(path, **kwargs):
    name = _entry(path)
    if not name:
        return REAL_OS["stat"](path, **kwargs)
    node = _dir_look(name)
    return _real_os.stat_result(
        (0o100600, node.ident, 1, 1, 0, 0, len(node.data), 0, 0, 0))


def _dir_access(path, mode, **kwargs):
    name = _entry(path)
    if not name:
        return REAL_OS["access"](path, mode, **kwargs)
    try:
        _dir_look(name)
        return True
    except FileNotFoundError:
        return False


def _dir_unlink(path, **kwargs):
    name = _entry(path)
    if not name:
        return REAL_OS["unlink"](path, **kwargs)
    return _Posix.shm_unlink("/" + name)


def install():
    """route SharedMemory to the simulated file system (whole process)."""
    _shm_mod._posixshmem = _Posix
    _shm_mod.os = _OS()
    _shm_mod.mmap = types.SimpleNamespace(mmap=_Map)
    _shm_mod.memoryview = _View
    _shm_mod.resource_tracker = _NoTracker
    _real_os.listdir, _real_os.scandir = _dir_listdir, _dir_scandir
    _real_os.stat, _real_os.access = _dir_stat, _dir_access
    _real_os.unlink = _real_os.remove = _dir_unlink


@contextlib.contextmanager
def really(prefix):
    """
    SharedMemory is the real thing within (but for the resource tracker);
    whatever has the prefix is removed afterwards.
    """
    names = ("_posixshmem", "os", "mmap", "memoryview", "resource_tracker")
    was = {k: getattr(_shm_mod, k, memoryview) for k in names}
    for k in ("_posixshmem", "os", "mmap"):
        setattr(_shm_mod, k, _REAL[k])
    _shm_mod.memoryview = memoryview
    _shm_mod.resource_tracker = _NoTracker
    try:
        yield
    finally:
        for k, v in was.items():
            setattr(_shm_mod, k, v)
        for name in REAL_OS["listdir"]("/dev/shm"):
            if name.startswith(prefix):
                REAL_OS["unlink"]("/dev/shm/" + name)
