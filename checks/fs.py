"""A file system and a serializer under the harness' control: the code's file operations happen in memory, one by one,
and the process may stop before any of them and in the middle of any write.

Only what the code does counts: the operations are intercepted below open(), os, shutil, tempfile and pathlib.  After the
process has stopped, nothing has an effect any more (handlers and `finally` blocks do not run in a dead process); what was
written but not flushed may or may not have reached the file, in any part."""
import builtins
import copy
import errno
import io
import os
import pickle
import shutil
import stat
import tempfile

from checks.common import *
from symx.core import EngineLimit

ROOT = "/nonexistent-symx"


class Crash(BaseException):
    """The process has stopped."""


class Node:
    def __init__(self, data=b""):
        self.data = data


class File(io.RawIOBase):
    """An open file with the buffer of a usual Python file object."""

    def __init__(self, fs, path, node, mode):
        self.fs, self.path, self.node, self.mode_ = fs, path, node, mode
        self.pos = len(node.data) if "a" in mode else 0
        self.buf, self.at = b"", self.pos
        self.fd = fs.newfd(self)
        self.name = path
        self.readable_, self.writable_ = "r" in mode or "+" in mode, mode.strip("bt") != "r"

    mode = property(lambda self: self.mode_)

    def readable(self):
        return self.readable_

    def writable(self):
        return self.writable_

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def write(self, data):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not self.writable_:
            raise io.UnsupportedOperation("not writable")
        data = bytes(data)
        self.fs.tick("write", self)
        if not self.buf:
            self.at = self.pos
        self.buf += data
        self.pos += len(data)
        return len(data)

    def flush(self):
        if self.buf and not self.closed:
            self.fs.tick("flush", self)
            self.node.data = overlay(self.node.data, self.buf, self.at)
            self.buf = b""

    def close(self):
        if not self.closed:
            if self.fs.dead:  # nothing reaches the file any more
                return super_close(self)
            try:
                self.flush()
            finally:
                self.fs.fds.pop(self.fd, None)
                super_close(self)

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        pass

    def seek(self, pos, whence=0):
        self.flush()
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else len(self.node.data) + pos
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        self.flush()
        self.fs.tick("truncate", self)
        size = self.pos if size is None else size
        self.node.data = self.node.data[:size].ljust(size, b"\0")
        return size

    def readall(self):
        return self.read(-1)

    def read(self, n=-1):
        if not self.readable_:
            raise io.UnsupportedOperation("not readable")
        self.flush()
        self.fs.tick("read", self)
        d = self.node.data[self.pos:] if n is None or n < 0 else self.node.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def peek(self, n=1):
        return self.node.data[self.pos:self.pos + max(n, 1)]

    read1 = read
    readinto1 = readinto


def super_close(f):
    f.buf = b""
    io.RawIOBase.close(f)


def overlay(old, new, at):
    return old[:at].ljust(at, b"\0") + new + old[at + len(new):]


class FS:
    """fail: None or the kind of interruption ("stop", "error"); the moment is a symbolic number."""

    def __init__(self, env, kind=None):
        self.env, self.kind = env, kind
        self.files, self.dirs, self.fds = {}, {ROOT, ROOT + "/d", ROOT + "/d/e.f", os.getcwd()}, {}
        self.nfd, self.n, self.dead, self.armed, self.failed = 100000, 0, False, False, False
        self.loose = {}  # path -> [(condition-free) possible contents with the symbolic choice]
        self.snaps = []
        self.ops = []
        self.real = {}
        self.install()

    # -- interruptions
    def arm(self, most=40):
        self.k = self.env.int("crash", 0, most)
        self.n, self.armed = 0, True

    def tick(self, what, f=None):
        if self.dead:
            raise Crash()
        self.ops.append(what)
        if self.armed and self.kind and not self.failed:
            now = bool(C.eq(self.k, self.n))
            self.n += 1
            if now:
                self.failed = True
                if self.kind == "stop":
                    self.stop()
                    raise Crash()
                raise OSError(errno.ENOSPC, "No space left on device (%s)" % what)

    def stop(self):
        """The process stops now: an arbitrary part of what is not flushed reaches the files."""
        self.dead = True
        for f in list(self.fds.values()):
            if isinstance(f, File) and f.buf:
                cut = self.env.int("cut", 0, len(f.buf))
                f.node.loose = (cut, f.node.data, f.buf, f.at)
                f.buf = b""
        self.fds = {}

    def revive(self):
        """A new process."""
        self.dead = self.armed = False

    def variants(self, path):
        """Possible contents of a file: pairs (condition, data); data is None if the file is absent."""
        n = self.files.get(self.canon(path))
        if n is None:
            return [(True, None)]
        if getattr(n, "loose", None) is None:
            return [(True, n.data)]
        cut, old, buf, at = n.loose
        return [(C.eq(cut, c), overlay(old, buf[:c], at)) for c in range(len(buf) + 1)]

    def put(self, path, data):
        self.files[self.canon(path)] = Node(data)

    # -- paths
    def canon(self, p):
        p = os.fspath(p)
        if isinstance(p, bytes):
            p = p.decode()
        return os.path.normpath(os.path.join(os.getcwd(), p))

    def mine(self, p, write=False):
        if isinstance(p, int):
            return p in self.fds
        try:
            c = self.canon(p)
        except TypeError:
            return False
        if c in self.files or c in self.dirs and c != os.getcwd() or c.startswith(ROOT):
            return True
        d = os.path.dirname(c)
        if c.startswith(tempfile.gettempdir() + "/"):
            return write or c in self.files
        return d in self.dirs and not self.real["os.path.lexists"](c)

    def device(self, c):
        d = os.path.dirname(c)
        return "tmp" if c.startswith(tempfile.gettempdir() + "/") else d if d.startswith(ROOT + "/d") else "disk"

    def newfd(self, f):
        self.nfd += 1
        self.fds[self.nfd] = f
        return self.nfd

    def missing(self, c):
        return FileNotFoundError(errno.ENOENT, "No such file or directory", c)

    def need_dir(self, c):
        d = os.path.dirname(c)
        if d not in self.dirs and d != tempfile.gettempdir():
            raise self.missing(c)

    # -- operations
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return self.real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            f = self.fds[file]
            f.mode_ = mode
            f.readable_, f.writable_ = "r" in mode or "+" in mode, mode.strip("bt") != "r"
            return self.text(f, mode, encoding)
        if opener is not None:
            flags = os.O_RDWR | os.O_CREAT | (os.O_TRUNC if "w" in mode else 0) | (os.O_EXCL if "x" in mode else 0)
            fd = opener(file, flags)
            if fd in self.fds:
                return self.open(fd, mode, buffering, encoding)
            return self.real["open"](fd, mode, buffering, encoding, errors, newline)
        if not self.mine(file, any(c in mode for c in "wxa+")):
            return self.real["open"](file, mode, buffering, encoding, errors, newline, closefd)
        c = self.canon(file)
        if c in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", c)
        if "r" in mode and c not in self.files:
            raise self.missing(c)
        self.need_dir(c)
        self.tick("open")
        if "x" in mode and c in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", c)
        if c not in self.files:
            self.files[c] = Node()
        elif "w" in mode:
            self.files[c].data = b""
            self.files[c].loose = None
        return self.text(File(self, c, self.files[c], mode), mode, encoding)

    def text(self, f, mode, encoding=None):
        return f if "b" in mode else io.TextIOWrapper(io.BufferedRWPair(f, f) if "+" in mode else f, encoding or "utf-8", write_through=True)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        w = flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR)
        if not self.mine(path, bool(w)):
            return self.real["os.open"](path, flags, mode, dir_fd=dir_fd)
        c = self.canon(path)
        if c in self.dirs:  # to synchronize it
            return self.newfd(c)
        if flags & os.O_CREAT:
            self.need_dir(c)
        elif c not in self.files:
            raise self.missing(c)
        self.tick("open")
        if flags & os.O_CREAT and flags & os.O_EXCL and c in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", c)
        if c not in self.files:
            self.files[c] = Node()
        if flags & os.O_TRUNC:
            self.files[c].data = b""
            self.files[c].loose = None
        return File(self, c, self.files[c], "rb+" if w else "rb").fd

    def os_write(self, fd, data):
        if fd not in self.fds:
            return self.real["os.write"](fd, data)
        n = self.fds[fd].write(data)
        self.fds[fd].flush()
        return n

    def os_close(self, fd):
        if fd not in self.fds:
            return self.real["os.close"](fd)
        f = self.fds.pop(fd)
        if isinstance(f, File):
            f.close()

    def fsync(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd not in self.fds:
            return self.real["os.fsync"](fd)
        self.tick("fsync")

    def rename(self, src, dst, *a, **k):
        if not (self.mine(src) or self.mine(dst)):
            return self.real["os.rename"](src, dst, *a, **k)
        s, d = self.canon(src), self.canon(dst)
        self.tick("rename")
        if s not in self.files:
            raise self.missing(s)
        self.need_dir(d)
        if d in self.dirs:
            raise IsADirectoryError(errno.EISDIR, "Is a directory", d)
        if self.device(s) != self.device(d):
            raise OSError(errno.EXDEV, "Invalid cross-device link", s)
        self.files[d] = self.files.pop(s)

    def link(self, src, dst, **k):
        if not self.mine(src):
            return self.real["os.link"](src, dst, **k)
        s, d = self.canon(src), self.canon(dst)
        self.tick("link")
        if s not in self.files:
            raise self.missing(s)
        if d in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", d)
        self.files[d] = self.files[s]

    def remove(self, path, *a, **k):
        if not self.mine(path):
            return self.real["os.remove"](path, *a, **k)
        c = self.canon(path)
        self.tick("remove")
        if c not in self.files:
            raise self.missing(c)
        del self.files[c]

    def stat(self, path, *a, **k):
        if not self.mine(path):
            return self.real["os.stat"](path, *a, **k)
        if self.dead:
            raise Crash()
        if isinstance(path, int):
            f = self.fds[path]
            return self.entry(f.node) if isinstance(f, File) else self.entry(None)
        c = self.canon(path)
        if c in self.dirs:
            return self.entry(None)
        if c not in self.files:
            raise self.missing(c)
        return self.entry(self.files[c])

    def entry(self, n):
        mode = stat.S_IFDIR | 0o755 if n is None else stat.S_IFREG | 0o644
        return os.stat_result((mode, id(n) % 10 ** 6, 1, 1, 0, 0, 0 if n is None else len(n.data), 0, 0, 0))

    def mkdir(self, path, *a, **k):
        if not self.mine(path, True):
            return self.real["os.mkdir"](path, *a, **k)
        c = self.canon(path)
        if c in self.dirs or c in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", c)
        self.tick("mkdir")
        self.dirs.add(c)

    def listdir(self, path="."):
        if not self.mine(path):
            return self.real["os.listdir"](path)
        c = self.canon(path)
        return sorted({p[len(c) + 1:].split("/")[0] for p in list(self.files) + list(self.dirs) if p.startswith(c + "/")})

    def noop(self, name):
        def f(path, *a, **k):
            if not self.mine(path):
                return self.real["os." + name](path, *a, **k)

        return f

    def install(self):
        env, real = self.env, self.real
        real["open"] = builtins.open
        real["os.path.lexists"] = os.path.lexists
        for m in (builtins, io):
            env.patch(m, "open", self.open)
        table = dict(open=self.os_open, write=self.os_write, close=self.os_close, fsync=self.fsync, fdatasync=self.fsync, rename=self.rename, replace=self.rename, remove=self.remove, unlink=self.remove,
                     stat=self.stat, lstat=self.stat, fstat=self.stat, mkdir=self.mkdir, listdir=self.listdir, link=self.link)
        for n in ("chmod", "utime", "chown"):
            table[n] = self.noop(n)
        for n in ("listxattr", "access"):
            table[n] = lambda path, *a, _n=n, **k: ([] if _n == "listxattr" else self.canon(path) in self.files or self.canon(path) in self.dirs) if self.mine(path) else real["os." + _n](path, *a, **k)
        for n, f in table.items():
            real["os." + n] = getattr(os, n)
        real["os.lexists"] = real["os.path.lexists"]
        lst = real["os.lstat"]

        def lexists(p):
            try:
                lst(p)
                return True
            except OSError:
                return False

        real["os.path.lexists"] = lexists
        for n, f in table.items():
            env.patch(os, n, f)
        env.patch(shutil, "_USE_CP_SENDFILE", False)
        import dill

        for m in (dill, pickle):
            env.patch(m, "dump", self.dump)
            env.patch(m, "dumps", self.dumps)
            env.patch(m, "load", self.load)
            env.patch(m, "loads", self.loads)

    # -- the serializer: an image of the object at the time of the call
    def dumps(self, obj, *a, **k):
        if self.dead:
            raise Crash()
        self.snaps.append(copy.deepcopy(obj))
        return b"<%03d>" % len(self.snaps)

    def dump(self, obj, file, *a, **k):
        d = self.dumps(obj)
        for part in (d[:1], d[1:4], d[4:]):
            file.write(part)

    def loads(self, data, *a, **k):
        if len(data) < 5 or data[:1] != b"<" or data[4:5] != b">":
            raise EOFError("Ran out of input")
        return copy.deepcopy(self.snaps[int(data[1:4]) - 1])

    def load(self, file, *a, **k):
        return self.loads(file.read(5))
