"""
A model of the file system as the stores use it, with symbolic file contents, fault positions and modification times.

Symbolic mode (`VFS`): everything below ROOT is virtual. builtins.open, io.open and the functions of os that take a path
below ROOT (or a virtual descriptor) act on inodes whose content is a list of bytes, each a number or a symbolic number;
everything else is passed through. Each operation of a faultable phase is counted; at the symbolic position `cut` the
operation fails with an exception or the process dies (`Death` is raised there and by every later operation, which then has
no effect). Data written but not flushed reaches the inode up to a symbolic length when a write, flush or close fails or
the process dies.

Replay (`RealFS`): the same counting around the real functions in a scratch directory; death is os._exit in a forked child.

Characters of symbolic strings are private-use characters U+E000... in real str objects; the model of a text file encodes
the code point they stand for, whose value is symbolic, and gives out new ones when it decodes.
"""
import builtins
import codecs
import contextlib
import errno
import io
import json
import os
import pickle
import shutil
import stat as stat_module
import sys
import tempfile
import types

from vlib.symdt import SymSeconds, from_seconds
from vlib.symex import And, HarnessError, Or, SymNum, is_sym

ROOT = "/vfs-model"
MARK = 0xE000


class Death(BaseException):
    """The process is gone; raised by every operation from there on."""


class FaultOS(OSError):
    pass


class FaultKI(KeyboardInterrupt):
    pass


class Inode:
    def __init__(self, data=(), mtime=0):
        self.data = list(data)
        self.keep = None  # (start, symbolic length): the bytes from start on are there only up to that many
        self.mtime = mtime

    def snapshot(self):
        return list(self.data), self.keep


def is_full(inode_data, keep):
    """Is nothing cut off? (bool or SymBool)"""
    return True if keep is None else keep[1] == len(inode_data) - keep[0]


class SymBytes:
    """Stands for a bytes object with symbolic bytes."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return SymBytes(self.items[i]) if isinstance(i, slice) else self.items[i]

    def __eq__(self, other):
        if not isinstance(other, (bytes, bytearray, SymBytes)):
            return False
        a, b = list(self), list(other)
        return len(a) == len(b) and bool(And(*[x == y for x, y in zip(a, b)]))

    __hash__ = None

    def __add__(self, o):
        return SymBytes([*self, *o])

    def __radd__(self, o):
        return SymBytes([*o, *self])

    def __bytes__(self):
        raise HarnessError("bytes() of symbolic bytes is not modelled")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessError(f"method {name} of symbolic bytes is not modelled")


class Chars:
    """Symbolic characters, represented by private-use characters in real strings."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.table = {}
        self.index = {}

    def fresh(self, name):
        if self.ctx.concrete:
            return chr(int(self.ctx.int(name, 0, 0x10FFFF)))
        c = self.ctx.int(name, 0, 0x10FFFF)
        self.ctx.assume((c < 0xD800) | (c > 0xDFFF))
        return self.of(c)

    def of(self, code):
        """A character for a code point (number or symbolic number)."""
        if not is_sym(code):
            if MARK <= code < MARK + 0x400:
                raise HarnessError("a concrete private-use character")
            return chr(code)
        k = code.e.get_id()
        if k not in self.index:
            self.index[k] = (chr(MARK + len(self.table)), code)
            self.table[self.index[k][0]] = code
        return self.index[k][0]

    def special(self, ch):
        """Is it one that JSON must escape?"""
        c = self.table[ch]
        return bool(Or(c < 0x20, c == 0x22, c == 0x5C))

    def codes(self, s):
        return [self.table.get(ch, ord(ch)) for ch in s]


def norm_encoding(e):
    return codecs.lookup(e).name


def encode_char(c, enc):
    """Bytes of a symbolic code point."""

    def err():
        return UnicodeEncodeError(enc, "?", 0, 1, "a character that cannot be encoded")

    if enc in ("ascii", "iso8859-1"):
        if not bool(c < (128 if enc == "ascii" else 256)):
            raise err()
        return [c]
    if enc in ("utf-8", "utf-8-sig"):
        if bool(c < 0x80):
            return [c]
        if bool(c < 0x800):
            return [0xC0 + c // 64, 0x80 + c % 64]
        if bool(c < 0x10000):
            return [0xE0 + c // 4096, 0x80 + c // 64 % 64, 0x80 + c % 64]
        return [0xF0 + c // 262144, 0x80 + c // 4096 % 64, 0x80 + c // 64 % 64, 0x80 + c % 64]
    if enc in ("utf-16", "utf-16-le"):
        if bool(c < 0x10000):
            return [c % 256, c // 256]
        d = c - 0x10000
        hi, lo = 0xD800 + d // 1024, 0xDC00 + d % 1024
        return [hi % 256, hi // 256, lo % 256, lo // 256]
    if enc in ("utf-32", "utf-32-le"):
        return [c % 256, c // 256 % 256, c // 65536, 0]
    raise HarnessError(f"encoding {enc} of symbolic characters is not modelled")


def decode_items(items, enc, errors="strict"):
    """List of bytes (numbers or symbolic) -> list of code points."""
    if not any(is_sym(b) for b in items):
        return [ord(ch) for ch in bytes(items).decode(enc, errors)]
    if errors != "strict":
        raise HarnessError("decoding symbolic bytes with errors other than strict")

    def err():
        return UnicodeDecodeError(enc, b"?", 0, 1, "invalid data")

    out = []
    i = 0
    n = len(items)
    if enc == "utf-8-sig":
        if n >= 3 and bool(And(items[0] == 0xEF, items[1] == 0xBB, items[2] == 0xBF)):
            i = 3
        enc = "utf-8"
    if enc == "utf-16":
        if n >= 2 and bool(And(items[0] == 0xFF, items[1] == 0xFE)):
            i = 2
        elif n >= 2 and bool(And(items[0] == 0xFE, items[1] == 0xFF)):
            raise HarnessError("big-endian UTF-16 is not modelled")
    if enc == "utf-32" and n >= 4 and bool(And(items[0] == 0xFF, items[1] == 0xFE, items[2] == 0, items[3] == 0)):
        i = 4

    def cont(k):
        if k >= n:
            raise err()
        b = items[k]
        if not bool(And(b >= 0x80, b < 0xC0)):
            raise err()
        return b - 0x80

    while i < n:
        b = items[i]
        if enc in ("ascii", "iso8859-1"):
            if enc == "ascii" and not bool(b < 128):
                raise err()
            out.append(b)
            i += 1
        elif enc == "utf-8":
            if bool(b < 0x80):
                out.append(b)
                i += 1
            elif bool(And(b >= 0xC2, b < 0xE0)):
                out.append((b - 0xC0) * 64 + cont(i + 1))
                i += 2
            elif bool(And(b >= 0xE0, b < 0xF0)):
                c = (b - 0xE0) * 4096 + cont(i + 1) * 64 + cont(i + 2)
                if not bool(And(c >= 0x800, (c < 0xD800) | (c > 0xDFFF))):
                    raise err()
                out.append(c)
                i += 3
            elif bool(And(b >= 0xF0, b < 0xF5)):
                c = (b - 0xF0) * 262144 + cont(i + 1) * 4096 + cont(i + 2) * 64 + cont(i + 3)
                if not bool(And(c >= 0x10000, c <= 0x10FFFF)):
                    raise err()
                out.append(c)
                i += 4
            else:
                raise err()
        elif enc in ("utf-16", "utf-16-le"):
            if i + 1 >= n:
                raise err()
            u = items[i] + 256 * items[i + 1]
            if bool(And(u >= 0xD800, u < 0xDC00)) if is_sym(u) else 0xD800 <= u < 0xDC00:
                if i + 3 >= n:
                    raise err()
                lo = items[i + 2] + 256 * items[i + 3]
                if not bool(And(lo >= 0xDC00, lo < 0xE000)):
                    raise err()
                out.append(0x10000 + (u - 0xD800) * 1024 + (lo - 0xDC00))
                i += 4
            else:
                out.append(u)
                i += 2
        elif enc in ("utf-32", "utf-32-le"):
            if i + 3 >= n:
                raise err()
            out.append(items[i] + 256 * items[i + 1] + 65536 * items[i + 2])
            i += 4
        else:
            raise HarnessError(f"decoding {enc} of symbolic bytes is not modelled")
    return out


class ModelFile:
    """What open() returns for a virtual path."""

    def __init__(self, fs, inode, path, mode, encoding, errors, newline, pos_end=False):
        self.fs, self.inode, self.name, self.mode = fs, inode, path, mode
        self.text = "b" not in mode
        self.closed = False
        self.pending = []
        self.can_write = any(c in mode for c in "wax+")
        self.can_read = "r" in mode or "+" in mode
        self.pos = 0
        self.at = len(inode.data) if "a" in mode else 0
        self.fresh = True
        if self.text:
            self.encoding = fs.encoding(encoding)
            self.errors = errors or "strict"
            self.newline = newline
            self.enc = norm_encoding(self.encoding)
            self.encoder = codecs.getincrementalencoder(self.enc)(self.errors)
            self.first = True
        fs.open_files.append(self)

    # writing
    def _encode(self, s):
        if not isinstance(s, str):
            raise TypeError(f"write() argument must be str, not {type(s).__name__}")
        if self.newline in ("\r", "\r\n"):
            s = s.replace("\n", self.newline)
        out = []
        for ch in s:
            code = self.fs.chars.table.get(ch)
            if code is None:
                out.extend(self.encoder.encode(ch))
            elif self.errors != "strict":
                raise HarnessError("encoding symbolic characters with errors other than strict")
            else:
                # The encoder may owe a byte order mark.
                if self.first and self.enc in ("utf-16", "utf-32", "utf-8-sig"):
                    x = self.encoder.encode("a")
                    tail = {"utf-16": 2, "utf-32": 4, "utf-8-sig": 1}[self.enc]
                    out.extend(x[:-tail])
                out.extend(encode_char(code, self.enc))
            self.first = False
        return out

    def write(self, data):
        self._check()
        if not self.can_write:
            raise io.UnsupportedOperation("not writable")
        if self.text:
            items = self._encode(data)
        else:
            if isinstance(data, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            items = list(data if isinstance(data, (bytes, bytearray, SymBytes)) else memoryview(data).cast("B"))
        self.pending += items
        self.fs.op("write", self.name, self)
        return len(data)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _flush(self):
        if self.pending:
            self.inode.data[self.at : self.at + len(self.pending)] = self.pending
            self.at += len(self.pending)
            self.pending = []
            self.inode.mtime = self.fs.now()

    def flush(self):
        self._check()
        self.fs.op("flush", self.name, self)
        self._flush()

    def cut_pending(self):
        """An unknown part of the unflushed data has reached the inode."""
        if self.pending and self.inode.keep is None:
            n = self.fs.ctx.int("flushed", 0, len(self.pending))
            self.inode.keep = (self.at, n)
            self.inode.data[self.at :] = self.pending
            self.inode.mtime = self.fs.now()
        self.pending = []

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.can_write:
            try:
                self.fs.op("close", self.name, self)
                self._flush()
            finally:
                if self in self.fs.open_files:
                    self.fs.open_files.remove(self)
            self.fs.op("close-after", self.name, None)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.close()

    def truncate(self, n=None):
        self._flush()
        n = self.at if n is None else n
        del self.inode.data[n:]

    # reading
    def _content(self):
        i = self.inode
        if i.keep is None:
            return list(i.data)
        start, k = i.keep
        return i.data[: start + int(k)]

    def read(self, n=-1):
        self._check()
        if not self.can_read:
            raise io.UnsupportedOperation("not readable")
        if self.text:
            if not hasattr(self, "decoded"):
                self.decoded = self._decode(self._content())
            data = self.decoded
            end = len(data) if n is None or n < 0 else self.pos + n
            out, self.pos = data[self.pos : end], min(end, len(data))
            return out
        data = self._content()
        end = len(data) if n is None or n < 0 else self.pos + n
        out, self.pos = data[self.pos : end], min(end, len(data))
        return SymBytes(out) if any(is_sym(x) for x in out) else bytes(out)

    def readinto(self, buffer):
        data = self.read(len(buffer))
        buffer[: len(data)] = data
        return len(data)

    def _decode(self, items):
        codes = decode_items(items, self.enc, self.errors)
        if self.newline is None:
            out = []
            k = 0
            while k < len(codes):
                if bool(codes[k] == 13):
                    out.append(10)
                    if k + 1 < len(codes) and bool(codes[k + 1] == 10):
                        k += 1
                else:
                    out.append(codes[k])
                k += 1
            codes = out
        return "".join(self.fs.chars.of(c) for c in codes)

    def readline(self, n=-1):
        if self.text:
            rest = self.read()
            i = rest.find("\n")
            line = rest if i < 0 else rest[: i + 1]
            self.pos -= len(rest) - len(line)
            return line
        rest = self.read()
        if isinstance(rest, SymBytes):
            raise HarnessError("readline on symbolic bytes")
        i = rest.find(b"\n")
        line = rest if i < 0 else rest[: i + 1]
        self.pos -= len(rest) - len(line)
        return line

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else self.pos + pos if whence == 1 else len(self._content()) + pos
        return self.pos

    def tell(self):
        return self.at + len(self.pending) if self.can_write else self.pos

    def readable(self):
        return self.can_read

    def writable(self):
        return self.can_write

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        return self.fs.fd(self)

    @property
    def buffer(self):
        raise HarnessError("the raw buffer of a text file is not modelled")


OPS = "open open-after write flush close close-after replace replace-after"


class Base:
    """Fault injection, shared by the model and the real file system."""

    ctx = None
    cut = None
    fault = None  # "os", "ki" or "death"
    count = 0
    dead = False
    hit = None

    def op(self, what, path, file):
        if self.dead:
            raise Death()
        if self.cut is None or (what in ("remove",) and self.fault != "death"):
            return
        k = self.count
        self.count += 1
        if self.cut == k:
            self.hit = (what, str(path))
            self.strike(file)
            if self.fault == "os":
                raise FaultOS(errno.ENOSPC, "No space left on device", str(path))
            raise FaultKI()


class VFS(Base):
    def __init__(self, ctx, locale="utf-8"):
        self.ctx = ctx
        self.root = ROOT
        self.files = {}
        self.open_files = []
        self.fds = {}
        self.chars = Chars(ctx)
        self.locale = locale
        self.clock = 0
        self.symbolic_time = False
        self.denied = set()

    def path(self, name):
        return f"{self.root}/{name}"

    def encoding(self, e):
        return self.locale if e in (None, "locale") else e

    def now(self):
        if self.symbolic_time:
            step = self.ctx.int("tick", 0, 10**6)
            self.clock = self.clock + step
        else:
            self.clock = self.clock + 1
        return self.clock

    def strike(self, file):
        if self.fault == "death":
            for f in list(self.open_files):
                f.cut_pending()
            self.dead = True
            raise Death()
        if file is not None:
            file.cut_pending()

    # content as seen from outside
    def put(self, name, items, mtime=None):
        self.files[self.path(name)] = i = Inode(items, self.now() if mtime is None else mtime)
        return i

    def names(self):
        return sorted(p[len(self.root) + 1 :] for p in self.files)

    def inode(self, name):
        return self.files.get(self.path(name))

    def is_content(self, name, items):
        """Does the file hold exactly these bytes? (bool or SymBool)"""
        i = self.inode(name)
        if i is None:
            return False
        start, k = i.keep if i.keep is not None else (len(i.data), 0)
        n = len(items)
        if n < start:
            return False
        same = And(*[a == b for a, b in zip(i.data, items)])
        if len(i.data) < n:
            return False
        if i.keep is None:
            return len(i.data) == n and same
        return And(k == n - start, same)

    # patched functions
    def mine(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        return isinstance(p, str) and (p == self.root or p.startswith(self.root + "/"))

    def key(self, path):
        return os.path.normpath(os.fspath(path))

    def lookup(self, path):
        if isinstance(path, int):
            return self.fds[path].inode
        p = self.key(path)
        if p in self.denied:
            raise PermissionError(errno.EACCES, "Permission denied", p)
        if p not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
        return self.files[p]

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if "b" in mode and (encoding is not None or newline is not None or errors is not None):
            raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
        if newline not in (None, "", "\n", "\r", "\r\n"):
            raise ValueError(f"illegal newline value: {newline}")
        if opener is not None:
            fd = opener(file, os.O_RDWR | os.O_CREAT)
            if isinstance(fd, int) and fd in self.fds:
                file = fd
        if isinstance(file, int):
            f = self.fds[file]
            return ModelFile(self, f.inode, f.name, mode, encoding, errors, newline)
        p = self.key(file)
        writing = any(c in mode for c in "wax+")
        if writing:
            self.op("open", p, None)
        inode = self.raw_open(p, mode)
        if writing:
            self.op("open-after", p, None)
        return ModelFile(self, inode, file, mode, encoding, errors, newline)

    def raw_open(self, p, mode):
        if "r" in mode:
            return self.lookup(p)
        if "x" in mode and p in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", p)
        if p not in self.files:
            self.files[p] = Inode(mtime=self.now())
        elif "w" in mode:
            self.files[p].data = []
            self.files[p].keep = None
            self.files[p].mtime = self.now()
        return self.files[p]

    def fd(self, f):
        n = 10**6 + len(self.fds)
        self.fds[n] = f
        return n

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.key(path)
        acc = flags & (os.O_WRONLY | os.O_RDWR)
        if acc:
            self.op("open", p, None)
        if flags & os.O_CREAT:
            if flags & os.O_EXCL and p in self.files:
                raise FileExistsError(errno.EEXIST, "File exists", p)
            inode = self.raw_open(p, "w" if flags & os.O_TRUNC else "a")
        else:
            inode = self.lookup(p)
            if flags & os.O_TRUNC:
                self.raw_open(p, "w")
        if acc:
            self.op("open-after", p, None)
        return self.fd(ModelFile(self, inode, p, "r+b" if acc else "rb", None, None, None))

    def os_write(self, fd, data):
        f = self.fds[fd]
        n = f.write(data)
        f._flush()
        return n

    def os_read(self, fd, n):
        return self.fds[fd].read(n)

    def os_close(self, fd):
        self.fds[fd].close()

    def fsync(self, fd):
        f = self.fds[fd if isinstance(fd, int) else fd.fileno()]
        self.op("flush", f.name, f)

    def replace(self, src, dst, **kw):
        s, d = self.key(src), self.key(dst)
        self.op("replace", d, None)
        if s not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", s)
        self.files[d] = self.files.pop(s)
        self.op("replace-after", d, None)

    def link(self, src, dst, **kw):
        s, d = self.key(src), self.key(dst)
        self.op("replace", d, None)
        if d in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", d)
        self.files[d] = self.lookup(s)

    def remove(self, path, **kw):
        p = self.key(path)
        self.op("remove", p, None)
        self.lookup(p)
        del self.files[p]

    def stat(self, path, **kw):
        if not isinstance(path, int) and self.key(path) == self.root:
            return types.SimpleNamespace(st_mode=0o040755, st_mtime=0, st_mtime_ns=0, st_size=0)
        i = self.lookup(path)
        m = i.mtime
        return types.SimpleNamespace(
            st_mtime=SymSeconds(m), st_mtime_ns=m * 1000, st_ctime=SymSeconds(m), st_size=len(i.data), st_mode=stat_module.S_IFREG | 0o644
        )

    def utime(self, path, times=None, *, ns=None, **kw):
        i = self.lookup(path)
        if ns is not None:
            i.mtime = ns[1] // 1000
        elif times is not None:
            i.mtime = from_seconds(times[1])
        else:
            i.mtime = self.now()

    def access(self, path, mode, **kw):
        try:
            self.lookup(path)
            return True
        except OSError:
            return False

    def unmodelled(self, *a, **k):
        raise HarnessError("file system operation is not modelled")

    def noop(self, *a, **k):
        return None

    @contextlib.contextmanager
    def active(self, fake_time=None):
        table = {
            "open": self.os_open,
            "replace": self.replace,
            "rename": self.replace,
            "remove": self.remove,
            "unlink": self.remove,
            "link": self.link,
            "stat": self.stat,
            "lstat": self.stat,
            "utime": self.utime,
            "access": self.access,
            "mkdir": self.noop,
            "chmod": self.noop,
            "listdir": self.unmodelled,
            "scandir": self.unmodelled,
            "truncate": self.unmodelled,
            "write": self.os_write,
            "read": self.os_read,
            "close": self.os_close,
            "fsync": self.fsync,
            "fdatasync": self.fsync,
            "fstat": self.stat,
        }
        saved = {}

        def wrap(real, fake):
            def f(path, *a, **k):
                return fake(path, *a, **k) if self.mine(path) else real(path, *a, **k)

            return f

        for name, fake in table.items():
            saved[name] = real = getattr(os, name)
            setattr(os, name, wrap(real, fake))
        real_open = builtins.open
        real_io_open = io.open
        opener = wrap(real_open, self.open)

        def any_open(file, *a, **k):
            if k.get("opener") is not None and self.mine(file):
                return self.open(file, *a, **k)
            return opener(file, *a, **k)

        builtins.open = io.open = any_open
        fs = self
        real_td = tempfile.TemporaryDirectory
        real_mk = tempfile.mkdtemp
        real_rm = shutil.rmtree
        n = [0]

        def mkdtemp(*a, **k):
            n[0] += 1
            return f"{fs.root}/tmp{n[0]}"

        def rmtree(path, *a, **k):
            if not fs.mine(path):
                return real_rm(path, *a, **k)
            for p in [p for p in fs.files if p.startswith(os.fspath(path) + "/")]:
                del fs.files[p]

        class TemporaryDirectory:
            def __init__(self, *a, **k):
                self.name = mkdtemp()

            def __enter__(self):
                return self.name

            def cleanup(self):
                rmtree(self.name)

            def __exit__(self, *exc):
                self.cleanup()

        tempfile.TemporaryDirectory, tempfile.mkdtemp, shutil.rmtree = TemporaryDirectory, mkdtemp, rmtree
        # Not all characters are written by json as they are.
        real_escape = json.encoder.encode_basestring

        def escape(s):
            out = real_escape(s)
            if self.chars.table:
                out = "".join(f"\\u{ord(ch):04x}" if ch in self.chars.table and self.chars.special(ch) else ch for ch in out)
            return out

        json.encoder.encode_basestring = escape
        patched = []
        if fake_time is not None:
            import datetime as dt

            for name, m in list(sys.modules.items()):
                if name.startswith("uberjob"):
                    for attr, v in list(vars(m).items()):
                        if v is dt:
                            patched.append((m, attr, v))
                            setattr(m, attr, fake_time)
                        elif v is dt.datetime:
                            patched.append((m, attr, v))
                            setattr(m, attr, fake_time.datetime)
        try:
            yield self
        finally:
            json.encoder.encode_basestring = real_escape
            for m, attr, v in patched:
                setattr(m, attr, v)
            for name, real in saved.items():
                setattr(os, name, real)
            builtins.open, io.open = real_open, real_io_open
            tempfile.TemporaryDirectory, tempfile.mkdtemp, shutil.rmtree = real_td, real_mk, real_rm

    def guarded(self, fn):
        """Runs fn (which may die) -> ("ok", None), ("raised", exception) or ("died", None)."""
        try:
            fn()
        except Death:
            return "died", None
        except HarnessError:
            raise
        except (Exception, KeyboardInterrupt) as e:
            return ("died", None) if self.dead else ("raised", e)
        return ("died", None) if self.dead else ("ok", None)

    def revive(self):
        self.dead = False
        self.cut = None
        self.open_files = []


class RealFile:
    """A real file whose operations are counted."""

    def __init__(self, fs, f, path):
        self.__dict__.update(fs=fs, f=f, path=path)

    def write(self, data):
        n = self.f.write(data)
        self.fs.op("write", self.path, self)
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        self.fs.op("flush", self.path, self)
        self.f.flush()

    def close(self):
        if self.f.closed:
            return
        try:
            self.fs.op("close", self.path, self)
        except BaseException:
            self.f.close()
            raise
        self.f.close()
        self.fs.op("close-after", self.path, None)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, name):
        return getattr(self.f, name)


class RealFS(Base):
    """Replay: the same operations on a scratch directory."""

    def __init__(self, ctx, locale="utf-8"):
        self.ctx = ctx
        self.locale = locale
        self.root = tempfile.mkdtemp(prefix="vfs-")
        self.chars = Chars(ctx)
        self.symbolic_time = False

    def dispose(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.root, name)

    def put(self, name, items, mtime=None):
        with open(self.path(name), "wb") as f:
            f.write(bytes(items))
        # Long ago, so that any later write shows.
        t = 1_700_000_000 + (0 if mtime is None else int(mtime))
        os.utime(self.path(name), (t, t))

    def names(self):
        return sorted(os.listdir(self.root))

    def raw(self, name):
        try:
            with open(self.path(name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def is_content(self, name, items):
        return self.raw(name) == bytes(items)

    def strike(self, file):
        n = int(self.ctx.int("flushed", 0, 0))
        if self.fault == "death":
            # Whatever was flushed before is there; of the rest, what the counterexample says.
            if file is not None:
                file.f.flush()
                size = os.fstat(file.f.fileno()).st_size
                os.ftruncate(file.f.fileno(), min(size, n))
            os._exit(9)

    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        return isinstance(p, str) and p.startswith(self.root)

    @contextlib.contextmanager
    def active(self, fake_time=None):
        real_open = builtins.open
        names = ("replace", "rename", "remove", "unlink")
        saved = {n: getattr(os, n) for n in names}

        def fake_open(file, mode="r", *a, **k):
            if not self.mine(file):
                return real_open(file, mode, *a, **k)
            if "b" not in mode and len(a) < 2 and k.get("encoding") in (None, "locale"):
                k["encoding"] = self.locale
            if any(c in mode for c in "wax+"):
                self.op("open", file, None)
                f = real_open(file, mode, *a, **k)
                self.op("open-after", file, None)
                return RealFile(self, f, file)
            return real_open(file, mode, *a, **k)

        def wrap(name, real):
            def f(*a, **k):
                if not self.mine(a[-1]):
                    return real(*a, **k)
                if name in ("remove", "unlink"):
                    self.op("remove", a[0], None)
                    return real(*a, **k)
                self.op("replace", a[1], None)
                real(*a, **k)
                self.op("replace-after", a[1], None)

            return f

        for n, real in saved.items():
            setattr(os, n, wrap(n, real))
        builtins.open = io.open = fake_open
        try:
            yield self
        finally:
            builtins.open = io.open = real_open
            for n, real in saved.items():
                setattr(os, n, real)

    def guarded(self, fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                out = ("ok", None)
                try:
                    fn()
                except BaseException as e:  # noqa
                    out = ("raised", (type(e).__name__, str(e)))
                with os.fdopen(w, "wb") as f:
                    pickle.dump((out, self.hit), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if os.waitstatus_to_exitcode(status) == 9:
            return "died", None
        out, self.hit = pickle.loads(data)
        return out

    def revive(self):
        self.cut = None


def create(ctx, locale="utf-8"):
    return RealFS(ctx, locale) if ctx.concrete else VFS(ctx, locale)
