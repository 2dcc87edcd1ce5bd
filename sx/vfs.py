"""Virtual file system and stand-ins for os, io, codecs, shutil, hashlib, time and fs.*.

This module is itself instrumented, so names, sizes and contents may be symbolic.  It models the
documented POSIX behaviour the code relies on (inodes, hard links, truncation in place, errors);
directory listings come in creation order.
"""
import errno
import posixpath as _pp
import stat as _stat
import sx.core as core
import sx.hooks as hooks
import sx.native as native

ROOT_CWD = "/sx"


class Blob(object):
    """opaque file content: identity `tag`, byte length `size` (int or symbolic)"""

    def __init__(self, tag, size):
        self.tag = tag
        self.size = size
        self.off = None         # a part of the content `of`, from byte `off` on (`last`: up to its end)

    def part(self, off, size, last):
        whole = self if self.off is None else self.of
        base = 0 if self.off is None else self.off
        b = Blob("%s@%d" % (whole.tag, base + off), size)
        b.of = whole
        b.off = base + off
        b.last = last and (self.off is None or self.last)
        return b

    def split(self, n):
        """the first n bytes and the rest (n < size)"""
        return self.part(0, n, False), self.part(n, self.size - n, True)

    def join(self, o):
        """the content of both if o continues this part of the same content, else None"""
        if self.off is None or o.off is None or self.of.tag != o.of.tag or type(self.size) is not int or self.off + self.size != o.off:
            return None
        if self.off == 0 and o.last:
            return o.of
        b = Blob(self.tag, self.size + o.size)
        b.of, b.off, b.last = o.of, self.off, o.last
        return b


def utf8len(x):
    return native.utf8len(x)


class SymBytes(core.Sym):
    """byte content as a list of segments: bytes | text | Blob"""
    STANDS_FOR = bytes

    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Blob):
                j = out[-1].join(s) if out and isinstance(out[-1], Blob) else None
                if j is not None:
                    out[-1] = j
                else:
                    out.append(s)
            elif s:
                if out and not isinstance(out[-1], Blob) and isinstance(out[-1], bytes) == isinstance(s, bytes):
                    out[-1] = out[-1] + s
                else:
                    out.append(s)
        self.segs = out

    def sx_len(self):
        n = 0
        for s in self.segs:
            if isinstance(s, Blob):
                n = n + s.size
            elif isinstance(s, bytes):
                n = n + len(s)
            else:
                n = n + utf8len(s)
        return n

    def __len__(self):
        return int(self.sx_len())

    def __bool__(self):
        for s in self.segs:
            if not isinstance(s, Blob):
                return True
        return True if self.sx_len() > 0 else False

    def concrete_bytes(self):
        out = b""
        for s in self.segs:
            if isinstance(s, Blob):
                return None
            if isinstance(s, bytes):
                out = out + s
            elif native.is_concrete(s):
                out = out + native.encode(s)
            else:
                return None
        return out

    def text(self):
        out = ""
        for s in self.segs:
            if isinstance(s, Blob):
                raise core.Inconclusive("reading opaque data as text")
            if isinstance(s, bytes):
                out = out + native.decode(s)
            else:
                out = out + s
        return out

    def decode(self, *a, **kw):
        return self.text()

    def __add__(self, o):
        return SymBytes(self.segs + (o.segs if isinstance(o, SymBytes) else [o]))

    def __radd__(self, o):
        return SymBytes([o] + self.segs)

    def startswith(self, pfx, *a):
        if isinstance(pfx, tuple):
            return any([self.startswith(p) for p in pfx])
        b = self.concrete_bytes()
        if b is not None:
            return b.startswith(pfx)
        if isinstance(self.segs[0], Blob):
            return False       # opaque payload never starts with a mark the code looks for
        try:
            return self.text().startswith(native.decode(pfx))
        except UnicodeDecodeError:
            return False

    def __eq__(self, o):
        if not isinstance(o, SymBytes):
            if not isinstance(o, bytes):
                return False
            o = SymBytes([o])
        return content_eq(self, o)

    def __ne__(self, o):
        return core.NOT(self == o)

    def __hash__(self):
        raise core.Inconclusive("hash of symbolic bytes")

    def __getattr__(self, name):
        b = self.concrete_bytes()
        if b is None:
            raise core.Inconclusive("bytes." + name)
        return getattr(b, name)

    def __getitem__(self, k):
        b = self.concrete_bytes()
        if b is None:
            raise core.Inconclusive("bytes[]")
        return b[k]

    def __iter__(self):
        b = self.concrete_bytes()
        if b is None:
            raise core.Inconclusive("iter(bytes)")
        return iter(b)


def mkbytes(segs):
    sb = SymBytes(segs)
    b = sb.concrete_bytes()
    return sb if b is None else b


def content_eq(a, b):
    """condition: equal byte contents.  Opaque blobs are equal iff same tag and size (or both empty)"""
    sa, sb = a.segs, b.segs
    ba = any([isinstance(s, Blob) for s in sa])
    bb = any([isinstance(s, Blob) for s in sb])
    if not ba and not bb:
        ca, cb = a.concrete_bytes(), b.concrete_bytes()
        if ca is not None and cb is not None:
            return ca == cb
        return a.text() == b.text()
    if len(sa) == 1 and len(sb) == 1 and ba and bb:
        x, y = sa[0], sb[0]
        if x.tag == y.tag:
            return x.size == y.size
        return core.AND(x.size == 0, y.size == 0)
    if not sa or not sb:
        return core.AND(a.sx_len() == 0, b.sx_len() == 0)
    if len(sa) == len(sb):
        conds = []
        for x, y in zip(sa, sb):
            if isinstance(x, Blob) != isinstance(y, Blob):
                return False
            conds.append(content_eq(SymBytes([x]), SymBytes([y])))
        return core.AND(*conds)
    return False


class Inode(object):
    def __init__(self, vfs, kind):
        vfs.count += 1
        self.ino = vfs.count
        self.kind = kind            # 'd' or 'f'
        self.entries = []           # for 'd': [name, Inode]
        self.content = SymBytes([])
        self.tree = None            # for an archive file: Inode of its root directory
        self.fmt = None
        self.mtime = 1000000000.0 + self.ino
        self.nlink = 1
        self.mode = 0o755 if kind == "d" else 0o644
        self.rd = True
        self.wr = True
        self.writes = 0             # number of times content was replaced

    def find(self, name):
        for e in self.entries:
            if e[0] == name:
                return e[1]
        return None


class VFS(object):
    def __init__(self):
        self.count = 0
        self.root = Inode(self, "d")
        self.cwd = ROOT_CWD
        self.clock = 1700000000.0
        self.fault = None           # fault(op, path, path2) -> truthy to fail
        self.digests = []
        self.log = []               # destructive operations: (op, path)
        self.mkdirs(ROOT_CWD)

    # -- path resolution
    def parts(self, path):
        path = fspath(path)
        if not path:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        if not path.startswith("/"):
            path = self.cwd + "/" + path
        return [p for p in path.split("/") if p != "" and p != "."]

    def lookup(self, path):
        """inode or None"""
        stack = [self.root]
        for p in self.parts(path):
            cur = stack[-1]
            if cur.kind != "d":
                return None
            if p == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            n = cur.find(p)
            if n is None:
                return None
            stack.append(n)
        return stack[-1]

    def get(self, path):
        n = self.lookup(path)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if hasslash(path) and n.kind != "d":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        return n

    def parent(self, path):
        """(directory inode, last name) for creating/removing path"""
        parts = self.parts(path)
        stack = [self.root]
        if not parts:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        for p in parts[:-1]:
            cur = stack[-1]
            if p == "..":
                if len(stack) > 1:
                    stack.pop()
                continue
            n = cur.find(p)
            if n is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            if n.kind != "d":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
            stack.append(n)
        if parts[-1] == "..":
            raise core.Inconclusive("path ends in ..")
        return stack[-1], parts[-1]

    def chk(self, op, path, path2=None):
        if self.fault is not None:
            self.fault(op, path, path2)

    # -- operations
    def exists(self, path):
        try:
            n = self.lookup(path)
        except (OSError, ValueError):
            return False
        if n is None:
            return False
        return n.kind == "d" or not hasslash(path)

    def isdir(self, path):
        try:
            n = self.lookup(path)
        except (OSError, ValueError):
            return False
        return n is not None and n.kind == "d"

    def isfile(self, path):
        try:
            n = self.lookup(path)
        except (OSError, ValueError):
            return False
        return n is not None and n.kind == "f" and not hasslash(path)

    def mkdir(self, path):
        self.chk("mkdir", path)
        d, name = self.parent(path)
        if d.find(name) is not None:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        if not d.wr:
            raise PermissionError(errno.EACCES, "Permission denied", path)
        n = Inode(self, "d")
        d.entries.append([name, n])
        d.mtime = self.now()
        return n

    def mkdirs(self, path):
        cur = self.root
        for p in self.parts(path):
            n = cur.find(p)
            if n is None:
                n = Inode(self, "d")
                cur.entries.append([p, n])
            cur = n
        return cur

    def now(self):
        self.clock += 1
        return self.clock

    def create(self, path, excl=False):
        d, name = self.parent(path)
        n = d.find(name)
        if n is not None:
            if excl:
                raise FileExistsError(errno.EEXIST, "File exists", path)
            if n.kind == "d":
                raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
            if not n.wr:
                raise PermissionError(errno.EACCES, "Permission denied", path)
            return n
        if hasslash(path):
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        if not d.wr:
            raise PermissionError(errno.EACCES, "Permission denied", path)
        n = Inode(self, "f")
        d.entries.append([name, n])
        d.mtime = self.now()
        return n

    def setcontent(self, n, content):
        n.content = content
        n.writes += 1
        n.mtime = self.now()
        n.tree = None

    def remove(self, path):
        self.chk("remove", path)
        n = self.get(path)
        if n.kind == "d":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        self._unlink(path, n)

    def _unlink(self, path, n):
        d, name = self.parent(path)
        if not d.wr:
            raise PermissionError(errno.EACCES, "Permission denied", path)
        for i in range(len(d.entries)):
            if d.entries[i][1] is n and bool(d.entries[i][0] == name):
                del d.entries[i]
                break
        n.nlink -= 1
        d.mtime = self.now()

    def rmdir(self, path):
        self.chk("rmdir", path)
        n = self.get(path)
        if n.kind != "d":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        if n.entries:
            raise OSError(errno.ENOTEMPTY, "Directory not empty", path)
        self._unlink(path, n)

    def rename(self, a, b):
        self.chk("rename", a, b)
        n = self.get(a)
        t = self.lookup(b)
        if t is n:
            return
        if t is not None:
            if t.kind == "d":
                if n.kind != "d":
                    raise IsADirectoryError(errno.EISDIR, "Is a directory", b)
                if t.entries:
                    raise OSError(errno.ENOTEMPTY, "Directory not empty", b)
            elif n.kind == "d":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", b)
        d, name = self.parent(b)
        if t is not None:
            self._unlink(b, t)
        self._unlink(a, n)
        n.nlink += 1
        d.entries.append([name, n])

    def link(self, a, b):
        self.chk("link", a, b)
        n = self.get(a)
        if n.kind == "d":
            raise PermissionError(errno.EPERM, "Operation not permitted", a)
        d, name = self.parent(b)
        if d.find(name) is not None:
            raise FileExistsError(errno.EEXIST, "File exists", a, None, b)
        if not d.wr:
            raise PermissionError(errno.EACCES, "Permission denied", b)
        d.entries.append([name, n])
        n.nlink += 1
        d.mtime = self.now()

    def listdir(self, path):
        n = self.get(path)
        if n.kind != "d":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        if not n.rd:
            raise PermissionError(errno.EACCES, "Permission denied", path)
        return [e[0] for e in n.entries]


V = object.__new__(VFS)       # initialised by reset()


def reset():
    """a fresh, empty file system (called at the start of every path)"""
    V.__init__()
    vos.environ.clear()
    vos.environ["HOME"] = "/root"
    vos.environ["PATH"] = "/usr/bin:/bin"
    return V


def hasslash(path):
    path = fspath(path)
    return path.endswith("/")


def fspath(p):
    if isinstance(p, (str, bytes)):
        if isinstance(p, bytes):
            return native.decode(p) if not isinstance(p, SymBytes) else p.text()
        return p
    f = getattr(type(p), "__fspath__", None)
    if f is not None:
        return f(p)
    raise TypeError("expected str, bytes or os.PathLike object, not " + type(p).__name__)


# ------------------------------------------------------------------ files
UTF = ("utf-8", "utf8", "utf_8", "utf-8-sig", "utf_8_sig", "ascii", "us-ascii", "latin-1", "iso-8859-1")


def chkenc(encoding):
    e = encoding.lower()
    if e in UTF:
        return e
    native.codec_lookup(str(encoding))
    raise core.Inconclusive("encoding")


class VFile(object):
    """open file.  Text mode keeps a list of text, binary mode a SymBytes."""

    def __init__(self, path, mode, encoding, newline, breaks):
        self.name = path
        self.mode = mode
        self.closed = False
        self._bin = "b" in mode
        self.encoding = encoding
        self.newline = newline
        self._breaks = breaks            # set of line break code points for reading
        self._w = [c for c in "wax+" if c in mode] != []
        self._r = "r" in mode or "+" in mode
        base = [c for c in "rwax" if c in mode]
        if len(base) != 1:
            raise ValueError("must have exactly one of create/read/write/append mode")
        V.chk("open-" + base[0], path)
        if base[0] == "r":
            n = V.get(path)
            if n.kind == "d":
                raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
            if not n.rd:
                raise PermissionError(errno.EACCES, "Permission denied", path)
        else:
            n = V.create(path, base[0] == "x")
            if base[0] == "w":
                if n.content.segs:
                    V.setcontent(n, SymBytes([]))
                else:
                    n.writes += 1
        self._n = n
        self._init_pos()
        if base[0] == "r" and self._w and n.content.segs:
            self._wpos = 0

    def _init_pos(self):
        self._it = None
        self._wpos = None
        self._pending = None             # text remaining to be read

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    # reading
    def _load(self):
        self._chk()
        if not self._r:
            raise native.UnsupportedOperation("not readable")
        if self._pending is None:
            if self._bin:
                self._pending = self._n.content
            else:
                t = self._n.content.text()
                e = chkenc(self.encoding)
                if e in ("utf-8-sig", "utf_8_sig") and t.startswith("\ufeff"):
                    t = t[1:]
                if e in ("ascii", "us-ascii"):
                    if not t.isascii():
                        raise UnicodeDecodeError("ascii", b"?", 0, 1, "ordinal not in range(128)")
                elif e in ("latin-1", "iso-8859-1"):
                    if not t.isascii():
                        raise core.Inconclusive("latin-1 text")
                if self.newline is None:
                    t = native.translate_newlines(t)
                self._pending = t

    def read(self, n=-1):
        self._load()
        p = self._pending
        if self._bin:
            if n is None or n < 0:
                self._pending = SymBytes([])
                return mkbytes(p.segs)
            b = p.concrete_bytes()
            if b is not None:
                self._pending = SymBytes([b[n:]])
                return b[:n]
            n = int(n)
            out, rest = [], list(p.segs)
            while rest and n > 0:
                s = rest.pop(0)
                if isinstance(s, Blob):
                    if bool(s.size <= n):
                        out.append(s)
                        if type(s.size) is not int:
                            break           # a short read, as if the block ended here
                        n = n - s.size
                    else:
                        a, b = s.split(n)
                        out.append(a)
                        rest.insert(0, b)
                        n = 0
                elif n >= 1024:
                    out.append(s)           # texts are shorter than a block
                else:
                    out.append(s[:n])
                    rest.insert(0, s[n:])
                    n = 0
            self._pending = SymBytes(rest)
            return mkbytes(out)
        if n is None or n < 0:
            self._pending = ""
            return p
        self._pending = p[n:]
        return p[:n]

    def readline(self, size=-1):
        self._load()
        lines = self._lines()
        if not lines:
            return b"" if self._bin else ""
        self._setrest(lines[1:])
        return lines[0]

    def _lines(self):
        if self._bin:
            t = self._pending.text()
            return [native.encode_any(x) for x in native.split_lines(t, frozenset((10,)))]
        return native.split_lines(self._pending, self._breaks)

    def _setrest(self, lines):
        if self._bin:
            self._pending = SymBytes(lines)
        else:
            self._pending = "".join(lines)

    def readlines(self, hint=-1):
        self._load()
        lines = self._lines()
        self._setrest([])
        return lines

    def __iter__(self):
        return self

    def __next__(self):
        if self._it is None:
            self._load()
            self._it = self._lines()
            self._itpos = 0
        if self._itpos >= len(self._it):
            self._it = None
            self._setrest([])
            raise StopIteration
        line = self._it[self._itpos]
        self._itpos += 1
        self._setrest(self._it[self._itpos:])
        return line

    next = __next__

    def seek(self, pos, whence=0):
        self._chk()
        if whence == 1:
            pos = self.tell() + pos
        elif whence == 2:
            pos = self._n.content.sx_len() + pos
        if not self._bin and pos != 0 and whence != 2 and not self._plain():
            raise core.Inconclusive("seek")
        if bool(pos < 0):
            raise OSError(errno.EINVAL, "Invalid argument")
        self._init_pos()
        self._it = None
        self._wpos = None
        if self._r:
            if type(pos) is int and pos == 0:
                return 0
            self._load()
            if self._bin:
                left = pos
                while bool(left > 0):
                    x = self.read(left)
                    n = hooks.m_len(x)
                    if bool(n == 0):
                        break
                    left = left - n
            else:
                self._pending = self._pending[pos:]
        if self._w and bool(pos != self._n.content.sx_len()):
            self._wpos = pos
        return pos

    def _plain(self):
        """characters and bytes are the same"""
        return self.newline is not None or True if self._n.content.text().isascii() else False

    def tell(self):
        self._chk()
        if self._pending is None:
            if self._w and not self._r:
                return self._n.content.sx_len()
            return 0
        if self._bin:
            return self._n.content.sx_len() - SymBytes(list(self._pending.segs)).sx_len()
        if self._it is not None:
            raise OSError("telling position disabled by next() call")
        return self._n.content.sx_len() - utf8len(self._pending)

    # writing
    def write(self, data):
        self._chk()
        if not self._w:
            raise native.UnsupportedOperation("not writable")
        if self._bin:
            if isinstance(data, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            segs = data.segs if isinstance(data, SymBytes) else [data]
        else:
            if not isinstance(data, str):
                raise TypeError("write() argument must be str, not " + type(data).__name__)
            e = chkenc(self.encoding)
            if type(data) is core.SymRep:
                V.chk("write", self.name)
                self._n.content = SymBytes(self._n.content.segs + [Blob("repeated " + data.ch, data.n)])
                self._n.writes += 1
                self._n.mtime = V.now()
                return data.n
            if e in ("ascii", "us-ascii") and not data.isascii():
                raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
            segs = [data]
        V.chk("write", self.name)
        if getattr(self, "_wpos", None) is not None:
            self._overwrite(segs)
        else:
            self._n.content = SymBytes(self._n.content.segs + segs)
        self._n.writes += 1
        self._n.mtime = V.now()
        return native.charlen(data) if not self._bin else None

    def _overwrite(self, segs):
        """writing in the middle of the file"""
        if type(self._wpos) is int and self._wpos == 0 and not self._n.content.segs:
            self._n.content = SymBytes(segs)
        else:
            old, new = self._n.content.concrete_bytes(), SymBytes(segs).concrete_bytes()
            if old is None or new is None or type(self._wpos) is not int:
                raise core.Inconclusive("writing in the middle")
            self._n.content = SymBytes([old[:self._wpos] + new + old[self._wpos + len(new):]])
            self._wpos = self._wpos + len(new)
            return
        self._wpos = None

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def truncate(self, n=None):
        self._chk()
        if n is None:
            n = self.tell() if getattr(self, "_wpos", None) is None else self._wpos
        if type(n) is int and n == 0:
            V.setcontent(self._n, SymBytes([]))
            return 0
        k = self._n.content.concrete_bytes()
        if k is None or type(n) is not int:
            raise core.Inconclusive("truncate")
        V.setcontent(self._n, SymBytes([k[:n] + b"\0" * (n - len(k))]))
        return n

    def flush(self):
        pass

    def fileno(self):
        raise core.Inconclusive("fileno")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def isatty(self):
        return False

    def close(self):
        self.closed = True

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()

    def detach(self):
        raise core.Inconclusive("detach")


UNIV = frozenset((10, 13))
NL = frozenset((10,))


def v_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) and not isinstance(file, bool):
        raise core.Inconclusive("open(fd)")
    path = fspath(file)
    if "b" in mode:
        if encoding is not None:
            raise ValueError("binary mode doesn't take an encoding argument")
        return VFile(path, mode, None, None, NL)
    br = UNIV if newline == "" else NL
    return VFile(path, mode, encoding or "utf-8", newline, br)


def codecs_open(filename, mode="r", encoding=None, errors="strict", buffering=-1):
    if encoding is None:
        return v_open(filename, mode)
    m = mode.replace("b", "")
    # binary underneath: no newline translation; lines are broken as str.splitlines does
    return VFile(fspath(filename), m, encoding, "", frozenset(core.LINEBREAKS))


# ------------------------------------------------------------------ os
class StatResult(object):
    def __init__(self, n):
        self.st_ino = n.ino
        self.st_size = 4096 if n.kind == "d" else n.content.sx_len()
        self.st_mtime = n.mtime
        self.st_atime = n.mtime
        self.st_ctime = n.mtime
        self.st_mtime_ns = n.mtime * 1000000000
        self.st_nlink = n.nlink
        self.st_dev = 1
        self.st_uid = 0
        self.st_gid = 0
        self.st_mode = (0o40000 if n.kind == "d" else 0o100000) | n.mode

    def __getitem__(self, i):
        return [self.st_mode, self.st_ino, self.st_dev, self.st_nlink, self.st_uid, self.st_gid,
                self.st_size, self.st_atime, self.st_mtime, self.st_ctime][i]


class DirEntry(object):
    def __init__(self, path, e):
        self.name = e[0]
        self._n = e[1]
        self.path = vpath.join(path, e[0])

    def is_dir(self, follow_symlinks=True):
        return self._n.kind == "d"

    def is_file(self, follow_symlinks=True):
        return self._n.kind == "f"

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return StatResult(self._n)

    def inode(self):
        return self._n.ino

    def __fspath__(self):
        return self.path


class ScandirIter(object):
    def __init__(self, items):
        self._i = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._i)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class VPath(object):
    """os.path: the real posixpath source (instrumented), with the file system queries replaced"""
    sep = "/"
    pardir = ".."
    curdir = "."
    extsep = "."
    altsep = None
    pathsep = ":"
    supports_unicode_filenames = False
    __name__ = "posixpath"

    def __getattr__(self, name):
        return getattr(_pp, name)

    def exists(self, p):
        return V.exists(p)

    lexists = exists

    def isfile(self, p):
        return V.isfile(p)

    def isdir(self, p):
        return V.isdir(p)

    def islink(self, p):
        return False

    def ismount(self, p):
        return False

    def getsize(self, p):
        return vos.stat(p).st_size

    def getmtime(self, p):
        return vos.stat(p).st_mtime

    getatime = getmtime
    getctime = getmtime

    def samefile(self, a, b):
        return V.get(a) is V.get(b)

    def normpath(self, path):
        path = fspath(path)
        if not path:
            return "."
        lead = ""
        if path.startswith("/"):
            lead = "/"
            if path.startswith("//") and not path.startswith("///"):
                lead = "//"
        new = []
        for c in path.split("/"):
            if c == "" or c == ".":
                continue
            if c != ".." or (not lead and not new) or (new and new[-1] == ".."):
                new.append(c)
            elif new:
                new.pop()
        out = lead + "/".join(new)
        return out or "."

    def abspath(self, path):
        path = fspath(path)
        if not path.startswith("/"):
            path = _pp.join(V.cwd, path)
        return self.normpath(path)

    def realpath(self, path, strict=False):
        return self.abspath(path)

    def relpath(self, path, start=None):
        if not path:
            raise ValueError("no path specified")
        a = [x for x in self.abspath(start or ".").split("/") if x]
        b = [x for x in self.abspath(path).split("/") if x]
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1
        rel = [".."] * (len(a) - i) + b[i:]
        if not rel:
            return "."
        return _pp.join(*rel)

    def expanduser(self, path):
        path = fspath(path)
        if not path.startswith("~"):
            return path
        i = path.find("/", 1)
        if i < 0:
            i = len(path)
        if i == 1:
            home = vos.environ.get("HOME", "/root")
        else:
            home = None
            for nm, h in native.passwd():
                if path[1:i] == nm:
                    home = h
                    break
            if home is None:
                return path
        home = home.rstrip("/")
        return (home + path[i:]) or "/"


vpath = VPath()


class VOS(object):
    __name__ = "os"
    name = "posix"
    sep = "/"
    altsep = None
    curdir = "."
    pardir = ".."
    extsep = "."
    pathsep = ":"
    linesep = "\n"
    devnull = "/dev/null"
    F_OK, R_OK, W_OK, X_OK = 0, 4, 2, 1
    path = vpath
    environ = {}
    error = OSError
    SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2
    O_RDONLY, O_WRONLY, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 0, 1, 2, 64, 128, 512, 1024
    PathLike = native.PathLike
    stat_result = StatResult

    def fspath(self, p):
        return fspath(p)

    def fsencode(self, p):
        return fspath(p)

    fsdecode = fsencode

    def fdopen(self, fd, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **kw):
        return v_open(fd.path, mode, buffering, encoding, errors, newline)

    def close(self, fd):
        pass

    def getcwd(self):
        return V.cwd

    def chdir(self, p):
        n = V.get(p)
        if n.kind != "d":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", p)
        V.cwd = vpath.abspath(p)

    def stat(self, p, dir_fd=None, follow_symlinks=True):
        return StatResult(V.get(p))

    lstat = stat

    def access(self, p, mode, **kw):
        n = V.lookup(p)
        if n is None:
            return False
        if mode & 4 and not n.rd:
            return False
        if mode & 2 and not n.wr:
            return False
        return True

    def mkdir(self, p, mode=0o777, dir_fd=None):
        V.mkdir(p)

    def makedirs(self, name, mode=0o777, exist_ok=False):
        head, tail = _pp.split(name)
        if not tail:
            head, tail = _pp.split(head)
        if head and tail and not V.exists(head):
            try:
                self.makedirs(head, exist_ok=exist_ok)
            except FileExistsError:
                pass
            if tail == ".":
                return
        try:
            V.mkdir(name)
        except OSError:
            if not exist_ok or not V.isdir(name):
                raise

    def listdir(self, p="."):
        return V.listdir(p)

    def scandir(self, p="."):
        p = fspath(p)
        V.listdir(p)
        return ScandirIter([DirEntry(p, e) for e in list(V.get(p).entries)])

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        top = fspath(top)
        try:
            V.listdir(top)
        except OSError as ex:
            if onerror is not None:
                onerror(ex)
            return
        dirs, files = [], []
        for e in list(V.get(top).entries):
            if e[1].kind == "d":
                dirs.append(e[0])
            else:
                files.append(e[0])
        if topdown:
            yield top, dirs, files
            for d in dirs:
                for x in self.walk(_pp.join(top, d), topdown, onerror, followlinks):
                    yield x
        else:
            for d in dirs:
                for x in self.walk(_pp.join(top, d), topdown, onerror, followlinks):
                    yield x
            yield top, dirs, files

    def remove(self, p, dir_fd=None):
        V.remove(p)

    unlink = remove

    def rmdir(self, p, dir_fd=None):
        V.rmdir(p)

    def removedirs(self, name):
        V.rmdir(name)
        head, tail = _pp.split(name)
        if not tail:
            head, tail = _pp.split(head)
        while head and tail:
            try:
                V.rmdir(head)
            except OSError:
                break
            head, tail = _pp.split(head)

    def rename(self, a, b, **kw):
        V.rename(a, b)

    replace = rename

    def renames(self, a, b):
        head, tail = _pp.split(b)
        if head and tail and not V.exists(head):
            self.makedirs(head)
        V.rename(a, b)
        head, tail = _pp.split(a)
        if head and tail:
            try:
                self.removedirs(head)
            except OSError:
                pass

    def link(self, a, b, **kw):
        V.link(a, b)

    def symlink(self, a, b, **kw):
        raise core.Inconclusive("symlink")

    def readlink(self, p, **kw):
        V.get(p)
        raise OSError(errno.EINVAL, "Invalid argument", p)

    def utime(self, p, times=None, ns=None, **kw):
        n = V.get(p)
        n.mtime = V.now() if times is None else times[1]

    def chmod(self, p, mode, **kw):
        n = V.get(p)
        n.mode = mode & 0o7777
        n.rd = (mode & 0o400) != 0
        n.wr = (mode & 0o200) != 0

    def chown(self, p, uid, gid, **kw):
        V.get(p)

    def truncate(self, p, length):
        n = V.get(p)
        if length == 0:
            V.setcontent(n, SymBytes([]))
            return
        raise core.Inconclusive("truncate")

    def getenv(self, k, d=None):
        return self.environ.get(k, d)

    def umask(self, m):
        return 0o22

    def getpid(self):
        return 4242

    def getuid(self):
        return 0

    geteuid = getuid

    def sync(self):
        pass

    def fsync(self, fd):
        pass


vos = VOS()


# ------------------------------------------------------------------ shutil
class SameFileError(OSError):
    pass


class VShutil(object):
    __name__ = "shutil"
    Error = OSError
    SameFileError = SameFileError

    def copyfileobj(self, a, b, length=0):
        b.write(a.read())

    def copyfile(self, src, dst, follow_symlinks=True):
        V.chk("copy", src, dst)
        s = V.get(src)
        if s.kind == "d":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", src)
        if not s.rd:
            raise PermissionError(errno.EACCES, "Permission denied", src)
        t = V.lookup(dst)
        if t is s:
            raise SameFileError("same file")
        n = V.create(dst)
        tree, fmt = s.tree, s.fmt
        V.setcontent(n, s.content)
        n.tree, n.fmt = tree, fmt
        return dst

    def copymode(self, a, b, follow_symlinks=True):
        pass

    def copystat(self, a, b, follow_symlinks=True):
        V.get(b).mtime = V.get(a).mtime

    def copy(self, src, dst, follow_symlinks=True):
        if V.isdir(dst):
            dst = vpath.join(dst, vpath.basename(src))
        self.copyfile(src, dst)
        return dst

    def copy2(self, src, dst, follow_symlinks=True):
        dst = self.copy(src, dst)
        self.copystat(src, dst)
        return dst

    def copytree(self, src, dst, symlinks=False, ignore=None, copy_function=None, ignore_dangling_symlinks=False,
                 dirs_exist_ok=False):
        cf = copy_function or self.copy2
        names = V.listdir(src)
        ign = ignore(src, names) if ignore else []
        vos.makedirs(dst, exist_ok=dirs_exist_ok)
        for nm in names:
            if nm in ign:
                continue
            a, b = vpath.join(src, nm), vpath.join(dst, nm)
            if V.isdir(a):
                self.copytree(a, b, symlinks, ignore, copy_function, False, dirs_exist_ok)
            else:
                cf(a, b)
        return dst

    def move(self, src, dst, copy_function=None):
        if V.isdir(dst):
            dst = vpath.join(dst, vpath.basename(src.rstrip("/")))
            if V.exists(dst):
                raise OSError("Destination path already exists")
        V.rename(src, dst)
        return dst

    def rmtree(self, path, ignore_errors=False, onerror=None, onexc=None, dir_fd=None):
        try:
            V.chk("rmtree", path)
            n = V.get(path)
            if n.kind != "d":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
            V._unlink(path, n)
        except OSError:
            if not ignore_errors:
                raise

    def ignore_patterns(self, *p):
        return native.ignore_patterns(*p)


vshutil = VShutil()


# ------------------------------------------------------------------ hashlib
class Hasher(object):
    def __init__(self, alg):
        self.name = alg
        self._real = native.hash_new(alg)
        self._c = SymBytes([])

    def update(self, data):
        self._c = self._c + data

    def copy(self):
        h = Hasher(self.name)
        h._c = self._c
        return h

    def hexdigest(self):
        return digest(self.name, self._c)


def digest(alg, content):
    """digest text: the real one for concrete content, else one fresh value per distinct content
    (collision freedom is assumed)"""
    b = content.concrete_bytes()
    if b:
        return native.hash_hex(alg, b)
    for e in V.digests:
        if e[0] == alg and bool(content_eq(e[1], content)):
            return e[2]
    if b is not None:
        # no content: a file of symbolic size may turn out to be empty too
        V.digests.append((alg, content, native.hash_hex(alg, b)))
        return V.digests[-1][2]
    V.digests.append((alg, content, native.hash_hex(alg, native.encode("sym%d" % len(V.digests)))))
    return V.digests[-1][2]


class VHashlib(object):
    __name__ = "hashlib"
    algorithms_guaranteed = native.algorithms_guaranteed
    algorithms_available = native.algorithms_guaranteed

    def new(self, alg, data=b"", **kw):
        h = Hasher(alg)
        if data:
            h.update(data)
        return h

    def __getattr__(self, name):
        if name in native.algorithms_guaranteed:
            return lambda data=b"", **kw: self.new(name, data)
        raise AttributeError(name)


vhashlib = VHashlib()


class VTime(object):
    __name__ = "time"

    def time(self):
        return V.now()

    def sleep(self, s):
        pass

    def __getattr__(self, name):
        return getattr(native.time_module, name)


vtime = VTime()


class VIO(object):
    __name__ = "io"
    DEFAULT_BUFFER_SIZE = 8192
    UnsupportedOperation = native.UnsupportedOperation

    def open(self, *a, **kw):
        return v_open(*a, **kw)

    def __getattr__(self, name):
        return getattr(native.io_module, name)


vio = VIO()


class VCodecs(object):
    __name__ = "codecs"

    def open(self, *a, **kw):
        return codecs_open(*a, **kw)

    def lookup(self, enc):
        return native.codec_lookup(str(enc))

    def __getattr__(self, name):
        return getattr(native.codecs_module, name)


vcodecs = VCodecs()


class VTempfile(object):
    __name__ = "tempfile"
    tempdir = None

    def __init__(self):
        self.n = 0

    def gettempdir(self):
        V.mkdirs("/tmp")
        return "/tmp"

    def mkdtemp(self, suffix=None, prefix=None, dir=None):
        self.n += 1
        p = vpath.join(dir or self.gettempdir(), "%stmp%d%s" % (prefix or "", V.count, suffix or ""))
        V.mkdir(p)
        return p

    def _name(self, suffix, prefix, dir):
        self.n += 1
        return vpath.join(dir or self.gettempdir(), "%s%d.%d%s" % (prefix or "tmp", V.count, self.n, suffix or ""))

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        p = self._name(suffix, prefix, dir)
        V.create(p, True)
        return FD(p), p

    def NamedTemporaryFile(self, mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None, delete=True, **kw):
        p = self._name(suffix, prefix, dir)
        return TempFile(v_open(p, mode, buffering, encoding, None, newline), p, delete)

    def TemporaryFile(self, mode="w+b", **kw):
        return self.NamedTemporaryFile(mode, **kw)

    def TemporaryDirectory(self, suffix=None, prefix=None, dir=None, **kw):
        return TempDir(self.mkdtemp(suffix, prefix, dir))


class FD(int):
    """a file descriptor, as far as os.fdopen and os.close are concerned"""
    def __new__(cls, path):
        x = int.__new__(cls, 99)
        x.path = path
        return x


class TempFile(object):
    def __init__(self, f, name, delete):
        self.file, self.name, self.delete = f, name, delete

    def __getattr__(self, k):
        return getattr(self.file, k)

    def __iter__(self):
        return iter(self.file)

    def __enter__(self):
        return self

    def close(self):
        if not self.file.closed:
            self.file.close()
            if self.delete:
                V.remove(self.name)

    def __exit__(self, *a):
        self.close()


class TempDir(object):
    def __init__(self, name):
        self.name = name

    def cleanup(self):
        if V.exists(self.name):
            vshutil.rmtree(self.name)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()


vtempfile = VTempfile()


# ------------------------------------------------------------------ PyFilesystem (fs)
import sxfs.errors as fserrors
import sxfs.path as fspathmod


class Info(object):
    def __init__(self, name, n, times=True):
        self.name = name
        self._n = n
        self.is_dir = n.kind == "d"
        self.is_file = not self.is_dir
        self.size = (4096 if times else 0) if n.kind == "d" else n.content.sx_len()
        t = native.utcdate(n.mtime)
        self.modified = t
        self.accessed = t if times else None
        self.created = None
        self.raw = {"basic": {"name": name, "is_dir": self.is_dir}}
        self.suffix = fspathmod.splitext(name)[1]
        self.stem = fspathmod.splitext(name)[0]

    def make_path(self, dir_path):
        return fspathmod.join(dir_path, self.name)

    def get(self, ns, key, default=None):
        return {"name": self.name, "is_dir": self.is_dir, "size": self.size}.get(key, default)

    def has_namespace(self, ns):
        return True


class Step(tuple):
    @property
    def path(self):
        return self[0]

    @property
    def dirs(self):
        return self[1]

    @property
    def files(self):
        return self[2]


def named(name, patterns, default):
    """whether the name matches one of the patterns (FS.match)"""
    if patterns is None:
        return default
    import fnmatch
    return len([p for p in patterns if fnmatch.fnmatchcase(name, p)]) > 0


class Walker(object):
    """fs.walk: breadth first (the default) or depth first"""

    def __init__(self, f):
        self.fs = f

    def __call__(self, path="/", namespaces=None, **kw):
        return self.walk(path, namespaces, **kw)

    def _iter(self, path, kw):
        for k in kw:
            if k not in ("search", "ignore_errors", "on_error", "filter", "exclude", "filter_dirs", "exclude_dirs", "max_depth") and kw[k] is not None:
                raise core.Inconclusive("fs.walk option " + k)
        path = fspathmod.abspath(fspathmod.normpath(path))
        if kw.get("search", "breadth") == "depth":
            return self._depth(path, kw, 1)
        return self._breadth(path, kw)

    def _scan(self, p, kw):
        """what the walk shows of a directory"""
        out = []
        for i in self.fs.scandir(p):
            if i.is_dir:
                if not named(i.name, kw.get("exclude_dirs"), False) and named(i.name, kw.get("filter_dirs"), True):
                    out.append(i)
            elif not named(i.name, kw.get("exclude"), False) and named(i.name, kw.get("filter"), True):
                out.append(i)
        return out

    def _breadth(self, path, kw):
        queue = [(path, 1)]
        while queue:
            d, lev = queue.pop(0)
            for info in self._scan(d, kw):
                yield d, info
                if info.is_dir and (kw.get("max_depth") is None or lev < kw["max_depth"]):
                    queue.append((fspathmod.combine(d, info.name), lev + 1))
            yield d, None

    def _depth(self, path, kw, lev):
        for info in self._scan(path, kw):
            if info.is_dir and (kw.get("max_depth") is None or lev < kw["max_depth"]):
                for x in self._depth(fspathmod.combine(path, info.name), kw, lev + 1):
                    yield x
            yield path, info
        yield path, None

    def walk(self, path="/", namespaces=None, **kw):
        acc = []
        for d, info in self._iter(path, kw):
            if info is None:
                mine = [i for (x, i) in acc if x is d or bool(x == d)]
                acc = [(x, i) for (x, i) in acc if not (x is d or bool(x == d))]
                yield Step((d, [i for i in mine if i.is_dir], [i for i in mine if not i.is_dir]))
            else:
                acc.append((d, info))

    def files(self, path="/", **kw):
        for d, info in self._iter(path, kw):
            if info is not None and not info.is_dir:
                yield fspathmod.join(d, info.name)

    def dirs(self, path="/", **kw):
        for d, info in self._iter(path, kw):
            if info is not None and info.is_dir:
                yield fspathmod.join(d, info.name)

    def info(self, path="/", namespaces=None, **kw):
        for d, info in self._iter(path, kw):
            if info is not None:
                yield fspathmod.join(d, info.name), info


class FSBase(object):
    SX_OK = True
    writable = True

    def _root(self):
        raise NotImplementedError()

    def _sys(self, path):
        """path in the virtual file system, or None for an archive"""
        return None

    def check(self):
        pass

    def validatepath(self, path):
        if not isinstance(path, str):
            raise TypeError("paths must be unicode (not bytes)")
        if "\0" in path:
            raise fserrors.InvalidCharsInPath(path)
        return fspathmod.abspath(fspathmod.normpath(path))

    def _node(self, path):
        p = self.validatepath(path)
        cur = self._root()
        for c in p.split("/"):
            if c == "":
                continue
            if cur is None or cur.kind != "d":
                return None
            cur = cur.find(c)
        return cur

    def _get(self, path):
        n = self._node(path)
        if n is None:
            raise fserrors.ResourceNotFound(path)
        return n

    def exists(self, path):
        return self._node(path) is not None

    def isfile(self, path):
        n = self._node(path)
        return n is not None and n.kind == "f"

    def isdir(self, path):
        n = self._node(path)
        return n is not None and n.kind == "d"

    def islink(self, path):
        return False

    def isempty(self, path):
        return not self._dirnode(path).entries

    def _dirnode(self, path):
        n = self._get(path)
        if n.kind != "d":
            raise fserrors.DirectoryExpected(path)
        return n

    def listdir(self, path):
        return [e[0] for e in self._dirnode(path).entries]

    def scandir(self, path, namespaces=None, page=None):
        return iter([Info(e[0], e[1], self.writable) for e in list(self._dirnode(path).entries)])

    def filterdir(self, path, files=None, dirs=None, exclude_dirs=None, exclude_files=None, namespaces=None, page=None):
        out = []
        for i in self.scandir(path):
            if i.is_dir:
                if named(i.name, dirs, True) and not named(i.name, exclude_dirs, False):
                    out.append(i)
            elif named(i.name, files, True) and not named(i.name, exclude_files, False):
                out.append(i)
        return iter(out)

    def match(self, patterns, name):
        return named(name, patterns, True)

    def hash(self, path, name):
        h = vhashlib.new(name)
        with self.openbin(path) as fd:
            h.update(fd.read())
        return h.hexdigest()

    def glob(self, *a, **k):
        raise core.Inconclusive("FS.glob")

    def getinfo(self, path, namespaces=None):
        n = self._get(path)
        return Info(fspathmod.basename(self.validatepath(path)), n, self.writable)

    getdetails = getinfo
    getbasic = getinfo

    def getsize(self, path):
        return self.getinfo(path).size

    def getmodified(self, path):
        return self.getinfo(path).modified

    def gettype(self, path):
        return 1 if self._get(path).kind == "d" else 2

    @property
    def walk(self):
        return Walker(self)

    def opendir(self, path, factory=None):
        n = self._get(path)
        if n.kind != "d":
            raise fserrors.DirectoryExpected(path)
        return SubFS(self, self.validatepath(path))

    def hassyspath(self, path):
        return self._sys("/") is not None

    def getsyspath(self, path):
        s = self._sys(self.validatepath(path))
        if s is None:
            raise fserrors.NoSysPath(path)
        return s

    def geturl(self, path, purpose="download"):
        return "file://" + self.getsyspath(path)

    def getmeta(self, ns="standard"):
        return {}

    def hasurl(self, path, purpose="download"):
        return self.hassyspath(path)

    def _openany(self, path, mode, encoding, newline):
        p = self.validatepath(path)
        if p == "/":
            raise fserrors.FileExpected(path)
        s = self._sys(p)
        if s is None:
            if [c for c in "wax+" if c in mode]:
                raise fserrors.ResourceReadOnly(path)
            n = self._get(path)
            if n.kind != "f":
                raise fserrors.FileExpected(path)
            return ArcFile(n, p, mode, encoding, newline)
        try:
            if "b" in mode:
                return v_open(s, mode)
            return v_open(s, mode, encoding=encoding or "utf-8", newline=newline)
        except FileNotFoundError as ex:
            raise fserrors.ResourceNotFound(path, ex)
        except IsADirectoryError as ex:
            raise fserrors.FileExpected(path, ex)
        except NotADirectoryError as ex:
            raise fserrors.ResourceNotFound(path, ex)
        except FileExistsError as ex:
            raise fserrors.FileExists(path, ex)
        except PermissionError as ex:
            raise fserrors.PermissionDenied(path, ex)

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline="", line_buffering=False, **kw):
        return self._openany(path, mode, encoding, newline)

    def openbin(self, path, mode="r", buffering=-1, **kw):
        if "t" in mode:
            raise ValueError("mode must be binary")
        return self._openany(path, mode.replace("b", "") + "b", None, None)

    def _wsys(self, path):
        s = self._sys(self.validatepath(path))
        if s is None:
            raise fserrors.ResourceReadOnly(path)
        return s

    def makedir(self, path, permissions=None, recreate=False):
        s = self._wsys(path)
        try:
            V.mkdir(s)
        except FileNotFoundError as ex:
            raise fserrors.ResourceNotFound(path, ex)
        except NotADirectoryError as ex:
            raise fserrors.DirectoryExpected(path, ex)
        except FileExistsError as ex:
            if not recreate:
                raise fserrors.DirectoryExists(path, ex)
        return self.opendir(path)

    def makedirs(self, path, permissions=None, recreate=False):
        p = self.validatepath(path)
        parts = [x for x in p.split("/") if x]
        cur = "/"
        for i in range(len(parts)):
            cur = fspathmod.join(cur, parts[i])
            n = self._node(cur)
            if n is None:
                V.mkdir(self._wsys(cur))
            elif n.kind != "d":
                raise fserrors.DirectoryExpected(path)
            elif i == len(parts) - 1 and not recreate:
                raise fserrors.DirectoryExists(path)
        return self.opendir(p)

    def remove(self, path):
        n = self._get(path)
        if n.kind == "d":
            raise fserrors.FileExpected(path)
        V.remove(self._wsys(path))

    def removedir(self, path):
        n = self._get(path)
        if n.kind != "d":
            raise fserrors.DirectoryExpected(path)
        if n.entries:
            raise fserrors.DirectoryNotEmpty(path)
        V.rmdir(self._wsys(path))

    def removetree(self, path):
        vshutil.rmtree(self._wsys(path))

    def readtext(self, path, encoding=None, errors=None, newline=""):
        with self.open(path, encoding=encoding, newline=newline) as fd:
            return fd.read()

    gettext = readtext

    def readbytes(self, path):
        with self.openbin(path) as fd:
            return fd.read()

    getbytes = readbytes

    def writetext(self, path, contents, encoding="utf-8", errors=None, newline=""):
        with self.open(path, "w", encoding=encoding) as fd:
            fd.write(contents)

    settext = writetext

    def writebytes(self, path, contents):
        with self.openbin(path, "w") as fd:
            fd.write(contents)

    def download(self, path, file, chunk_size=None, **kw):
        with self.openbin(path) as fd:
            file.write(fd.read())

    getfile = download

    def upload(self, path, file, chunk_size=None, **kw):
        with self.openbin(path, "w") as fd:
            fd.write(file.read())

    def copy(self, src, dst, overwrite=False, preserve_time=False):
        if not overwrite and self.exists(dst):
            raise fserrors.DestinationExists(dst)
        copy_file(self, src, self, dst, _same=True)

    def settimes(self, path, accessed=None, modified=None):
        pass

    def touch(self, path):
        with self.openbin(path, "a"):
            pass

    def desc(self, path):
        return self._sys(path) or path

    def lock(self):
        return self

    def close(self):
        pass

    def isclosed(self):
        return False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class ArcFile(VFile):
    def __init__(self, n, path, mode, encoding, newline):
        self.name = path
        self.mode = mode
        self.closed = False
        self._bin = "b" in mode
        self.encoding = encoding or "utf-8"
        self.newline = newline
        self._breaks = UNIV if newline == "" else NL
        self._w = False
        self._r = True
        self._n = n
        self._init_pos()


class OSFS(FSBase):
    def __init__(self, root_path, create=False, create_mode=0o777, expand_vars=True):
        if not isinstance(root_path, str):
            root_path = fspath(root_path)
        self.root_path = root_path
        p = vpath.expandvars(root_path) if expand_vars else root_path
        self._root_path = vpath.abspath(vpath.expanduser(p))
        if create and not V.isdir(self._root_path):
            vos.makedirs(self._root_path)
        if not V.isdir(self._root_path):
            raise fserrors.CreateFailed("root path '%s' does not exist" % self._root_path)

    def _root(self):
        return V.lookup(self._root_path)

    def _sys(self, path):
        return vpath.join(self._root_path, path.lstrip("/"))

    def __repr__(self):
        return "OSFS('" + self.root_path + "')"

    def __str__(self):
        return "<osfs '" + self.root_path + "'>"


class SubFS(FSBase):
    def __init__(self, parent, path):
        self._parent = parent
        self._path = path
        self.writable = parent.writable

    def _root(self):
        return self._parent._node(self._path)

    def _sys(self, path):
        return self._parent._sys(fspathmod.join(self._path, path.lstrip("/")))

    def delegate_fs(self):
        return self._parent

    def delegate_path(self, path):
        return self._parent, fspathmod.join(self._path, path.lstrip("/"))

    def __repr__(self):
        return "SubFS(" + repr(self._parent) + ", '" + self._path + "')"

    def __str__(self):
        return str(self._parent) + self._path


class ArchiveFS(FSBase):
    writable = False
    FMT = None

    def __init__(self, file, write=False, *a, **kw):
        self._file = file
        if write:
            raise core.Inconclusive("archive writing")
        n = V.get(file)
        if n.tree is None or n.fmt != self.FMT:
            raise fserrors.CreateFailed("not an archive")
        self._tree = n.tree

    def _root(self):
        return self._tree

    def __repr__(self):
        return type(self).__name__ + "('" + self._file + "')"

    def __str__(self):
        return "<" + type(self).__name__.lower() + " '" + self._file + "'>"


class ZipFS(ArchiveFS):
    FMT = "zip"


class TarFS(ArchiveFS):
    FMT = "tar"


def open_fs(fs_url, writeable=True, create=False, cwd=".", default_protocol="osfs"):
    if not isinstance(fs_url, str):
        return fs_url
    if "://" in fs_url:
        proto, rest = fs_url.split("://", 1)
        if proto in ("osfs", "file"):
            return OSFS(rest, create=create)
        if proto == "zip":
            return ZipFS(rest)
        if proto == "tar":
            return TarFS(rest)
        raise core.Inconclusive("fs protocol")
    return OSFS(fs_url, create=create)


def copy_file(src_fs, src_path, dst_fs, dst_path, preserve_time=False, _same=False):
    src_fs, dst_fs = open_fs(src_fs), open_fs(dst_fs)
    n = src_fs._node(src_path)
    V.chk("copy", dst_fs._sys(dst_path) or dst_path, dst_path)
    w = dst_fs.openbin(dst_path, "w")       # truncates, creates
    if n is None:
        raise fserrors.ResourceNotFound(src_path)
    if n.kind != "f":
        raise fserrors.FileExpected(src_path)
    content = n.content
    w.write(SymBytes(list(content.segs))) if content.segs else None
    w.close()


# ------------------------------------------------------------------ snapshots for oracles
def snapshot(path):
    """{relative path: ('d', None) | ('f', SymBytes)} below path, plus hidden ids"""
    out = {}

    def rec(n, rel):
        for e in n.entries:
            r = e[0] if rel == "" else rel + "/" + e[0]
            if e[1].kind == "d":
                out[r] = ("d", None)
                rec(e[1], r)
            else:
                out[r] = ("f", SymBytes(list(e[1].content.segs)))
    n = V.lookup(path)
    if n is None:
        return None
    if n.kind == "f":
        return {"": ("f", SymBytes(list(n.content.segs)))}
    rec(n, "")
    return out


reset()
