"""What a harness sees.  SymCtx drives the instrumented code inside the engine and the virtual file
system; RealCtx replays one assignment of the same inputs against the real code on a real (scratch)
file system.  The same harness source runs under both."""
import json
import os

__sx__ = True

PLAIN = frozenset(range(1, 128)) | frozenset((0x85, 0xa0, 0xe9, 0x2028, 0x3000))
NAMECH = frozenset(map(ord, "ab ._-#0/"))


class CheckFailed(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    pass


class SymCtx(object):
    symbolic = True
    SX_OK = True

    def __init__(self, tier="quick", vfs=None):
        from . import core, hooks
        self.core = core
        self.hooks = hooks
        self.tier = tier
        self.vfs = vfs
        self.root = "/sx/w"
        self.trace = []

    def begin(self):
        v = self.vfs
        v.reset()
        v.V.mkdirs(self.root)
        v.V.cwd = self.root
        self.ntags = {}
        self.trace = []
        self.hooks.RANDOM[:] = [None, 0]

    # -- inputs
    def int(self, name, lo, hi):
        import z3
        e = z3.Int(name)
        ENG = self.core.ENG
        ENG.push(z3.And(e >= lo, e <= hi))
        ENG.model = None
        ENG.inputs.append((name, "int", e))
        if lo == hi:
            return lo
        return self.core.SymInt(e)

    def bool(self, name):
        import z3
        e = z3.Bool(name)
        self.core.ENG.inputs.append((name, "bool", e))
        return self.core.SymBool(e)

    def choice(self, name, options):
        """one of options; the index is symbolic and made concrete by forking"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        lo, hi = 0, len(options) - 1
        while lo < hi:      # halving keeps the tree of paths flat, so that it is shared among the workers
            mid = (lo + hi) // 2
            if bool(i <= mid):
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def flag(self, name):
        """a boolean made concrete by forking"""
        return bool(self.bool(name))

    def char(self, name, alphabet=PLAIN):
        import z3
        dom = frozenset(map(ord, alphabet)) if isinstance(alphabet, str) else frozenset(alphabet)
        e = z3.Int(name)
        ENG = self.core.ENG
        c = self.core.Ch(e, dom, True)
        ENG.trail.append(self.core._memb(e, dom))
        ENG.model = None
        ENG.inputs.append((name, "char", e))
        return c

    def text(self, name, lo, hi, alphabet=PLAIN):
        n = self.choice(name + ".len", list(range(lo, hi + 1)))
        cs = [self.char("%s.%d" % (name, i), alphabet) for i in range(n)]
        return self.core.mkstr(cs)

    # -- logic
    def And(self, *a):
        return self.core.AND(*a)

    def Or(self, *a):
        return self.core.OR(*a)

    def Not(self, a):
        return self.core.NOT(a)

    def Implies(self, a, b):
        return self.core.OR(self.core.NOT(a), b)

    def assume(self, c):
        self.core.ENG.assume(c)

    def check(self, c, msg):
        core = self.core
        ENG = core.ENG
        ENG.asserts += 1
        if type(msg) is not str:
            msg = repr(msg)
        e = core.zbool(c)
        if e is True:
            return
        if e is False:
            raise core.Violation(msg, self.model_inputs(ENG.cur_model()))
        import z3
        m = ENG.sat(z3.Not(e))
        if m is not None:
            raise core.Violation(msg, self.model_inputs(m))
        ENG.known[e.get_id()] = (e, True)

    def eq(self, a, b, msg):
        self.check(self.hooks.eq(a, b), msg)

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        if type(label) is not str:
            label = repr(label)
        ENG = self.core.ENG
        ENG.covers[label] = ENG.covers.get(label, 0) + 1

    def stop(self):
        raise self.core.PathDone()

    def note(self, *a):
        pass

    def model_inputs(self, m):
        out = {}
        for name, kind, e in self.core.ENG.inputs:
            v = m.eval(e, model_completion=True)
            if kind == "bool":
                out[name] = str(v) == "True"
            else:
                out[name] = v.as_long()
        return out

    # -- file system
    def path(self, *rel):
        return "/".join((self.root,) + rel) if rel else self.root

    def mkdir(self, path):
        self.vfs.V.mkdirs(path)

    def write(self, path, text):
        v = self.vfs
        d = path.rpartition("/")[0] if isinstance(path, str) else None
        if d is None:
            d = path[:path.rindex("/")]
        v.V.mkdirs(d)
        n = v.V.create(path)
        n.content = v.SymBytes([text] if text else [])

    def blob(self, path, tag, size):
        v = self.vfs
        v.V.mkdirs(path[:path.rindex("/")])
        n = v.V.create(path)
        n.content = v.SymBytes([v.Blob(tag, size)]) if not (isinstance(size, int) and size == 0) else v.SymBytes([])

    def blob_tail(self, path, tag, tail, size, at):
        """like blob(path, tag, size), but with other bytes from position `at` on (at < size)"""
        v = self.vfs
        v.V.mkdirs(path[:path.rindex("/")])
        n = v.V.create(path)
        n.content = v.SymBytes([v.Blob(tag, size).part(0, at, False), v.Blob(tail, size - at)])

    def archive(self, path, fmt, srcdir, arcname):
        """serialize directory srcdir as path (top directory arcname)"""
        v = self.vfs
        n = v.V.create(path)
        n.fmt = fmt
        n.tree = v.Inode(v.V, "d")
        top = n.tree
        segs = arcname.split("/")
        for x in segs[:-1]:
            d = v.Inode(v.V, "d")
            top.entries.append([x, d])
            top = d
        top.entries.append([segs[-1], self._clone(v.V.lookup(srcdir))])
        n.content = v.SymBytes([b"archive"])

    def _clone(self, n):
        v = self.vfs
        c = v.Inode(v.V, n.kind)
        c.content = n.content
        c.mtime = n.mtime
        c.entries = [[e[0], self._clone(e[1])] for e in n.entries]
        return c

    def age(self, path, k):
        """give everything at or below path the modification time k (thousands of seconds after some time)"""
        self._age(self.vfs.V.lookup(path), 1200000000.0 + 1000 * k)

    def _age(self, n, t):
        n.mtime = t
        for e in n.entries:
            self._age(e[1], t)

    def rmtree(self, path):
        self.vfs.vshutil.rmtree(path)

    def remove(self, path):
        self.vfs.V.remove(path)

    def exists(self, path):
        return self.vfs.V.exists(path)

    def isfile(self, path):
        return self.vfs.V.isfile(path)

    def isdir(self, path):
        return self.vfs.V.isdir(path)

    def snapshot(self, path):
        """{relative path: ('d', None) | ('f', content)}; contents compare with ==.  None if absent"""
        return self.vfs.snapshot(path)

    def content(self, path):
        n = self.vfs.V.lookup(path)
        if n is None or n.kind != "f":
            return None
        return self.vfs.SymBytes(list(n.content.segs))

    def text_of(self, path):
        n = self.vfs.V.lookup(path)
        if n is None or n.kind != "f":
            return None
        return n.content.text()

    def size_of(self, path):
        return self.vfs.V.lookup(path).content.sx_len()

    def same_file(self, a, b):
        v = self.vfs.V
        return v.lookup(a) is v.lookup(b)

    def digits(self):
        """model the digits of reals written as text, rather than a fixed text in their place"""
        self.core.ENG.digits = True

    def digest(self, alg, path):
        n = self.vfs.V.lookup(path)
        return self.vfs.digest(alg, n.content)

    def on_random(self, fn):
        """fn(n) gives the pseudo-random numbers from range(n) the code draws"""
        from . import hooks
        hooks.RANDOM[0] = fn

    def on_fault(self, fn):
        """fn(op, path, path2) is called before every mutating operation; raising OSError injects"""
        self.vfs.V.fault = fn

    def unlink_perm(self, *a):
        pass


class RealCtx(object):
    symbolic = False

    def __init__(self, values, root, tier="quick"):
        self.values = values
        self.root = root
        self.tier = tier
        self.covers = {}
        self.asserts = 0
        self.tags = {}
        self.notes = []

    def int(self, name, lo, hi):
        return int(self.values.get(name, lo))

    def bool(self, name):
        return bool(self.values.get(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.values.get(name, 0))]

    def text(self, name, lo, hi, alphabet=PLAIN):
        dom = sorted(map(ord, alphabet)) if isinstance(alphabet, str) else sorted(alphabet)
        n = self.choice(name + ".len", list(range(lo, hi + 1)))
        return "".join(chr(self.values.get("%s.%d" % (name, i), dom[0])) for i in range(n))

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        self.asserts += 1
        if not c:
            raise CheckFailed(msg)

    def eq(self, a, b, msg):
        self.check(a == b, msg + ": %r != %r" % (a, b))

    def fail(self, msg):
        self.check(False, msg)

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def stop(self):
        raise Stop()

    def note(self, *a):
        self.notes.append(a)

    def path(self, *rel):
        return "/".join((self.root,) + rel) if rel else self.root

    def mkdir(self, path):
        os.makedirs(path, exist_ok=True)

    def write(self, path, text):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as fd:
            fd.write(text.encode("utf-8") if isinstance(text, str) else text)

    def blob(self, path, tag, size):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        i = self.tags.setdefault(tag, len(self.tags))
        with open(path, "wb") as fd:
            fd.write((bytes([65 + i % 60]) + (b"%d." % i) * (size // 2 + 1))[:size])

    def blob_tail(self, path, tag, tail, size, at):
        self.blob(path, tail, size - at)
        with open(path, "rb") as fd:
            end = fd.read()
        self.blob(path, tag, size)
        with open(path, "r+b") as fd:
            fd.seek(at)
            fd.write(end)

    def archive(self, path, fmt, srcdir, arcname):
        if fmt == "zip":
            import zipfile
            with zipfile.ZipFile(path, "w") as z:
                for r, ds, fs in os.walk(srcdir):
                    rel = arcname + r[len(srcdir):]
                    z.writestr(rel + "/", "")
                    for f in fs:
                        z.write(os.path.join(r, f), rel + "/" + f)
        else:
            import tarfile
            mode = {".tgz": "w:gz", ".tar.gz": "w:gz", ".tar.bz2": "w:bz2"}
            m = "w"
            for k in mode:
                if path.endswith(k):
                    m = mode[k]
            with tarfile.open(path, m) as t:
                t.add(srcdir, arcname)

    def age(self, path, k):
        t = 1200000000.0 + 1000 * k
        for r, ds, fs in os.walk(path):
            for f in ["."] + fs:
                os.utime(os.path.join(r, f), (t, t))

    def rmtree(self, path):
        import shutil
        shutil.rmtree(path)

    def remove(self, path):
        os.remove(path)

    def exists(self, path):
        return os.path.exists(path)

    def isfile(self, path):
        return os.path.isfile(path)

    def isdir(self, path):
        return os.path.isdir(path)

    def snapshot(self, path):
        if not os.path.exists(path):
            return None
        if os.path.isfile(path):
            return {"": ("f", self.content(path))}
        out = {}
        for r, ds, fs in os.walk(path):
            rel = r[len(path):].lstrip("/")
            for d in ds:
                out[rel + "/" + d if rel else d] = ("d", None)
            for f in fs:
                out[rel + "/" + f if rel else f] = ("f", self.content(os.path.join(r, f)))
        return out

    def content(self, path):
        if not os.path.isfile(path):
            return None
        with open(path, "rb") as fd:
            return fd.read()

    def text_of(self, path):
        b = self.content(path)
        return None if b is None else b.decode("utf-8")

    def size_of(self, path):
        return os.path.getsize(path)

    def same_file(self, a, b):
        return os.path.samefile(a, b)

    def digits(self):
        pass

    def digest(self, alg, path):
        import hashlib
        return hashlib.new(alg, self.content(path)).hexdigest()

    def on_random(self, fn):
        import random

        def rr(a, b=None, step=1):
            lo, hi = (0, a) if b is None else (a, b)
            if hi <= lo:
                raise ValueError("empty range for randrange()")
            return lo + step * fn(len(range(lo, hi, step)))
        random.randrange = rr
        random.randint = lambda a, b: rr(a, b + 1)
        random.choice = lambda s: s[rr(len(s))]

    def on_fault(self, fn):
        first = not hasattr(self, "_fault")
        self._fault = fn
        if first:
            _patch_real(lambda op, p1, p2: self._fault(op, p1, p2))


def _patch_real(fn):
    """fault injection for concrete replay: the same operations are intercepted natively"""
    import builtins
    import io
    import shutil
    import codecs

    inside = []

    def call(op, p1, p2, real, a, kw):
        if inside:
            return real(*a, **kw)
        fn(op, p1, p2)
        inside.append(1)
        try:
            return real(*a, **kw)
        finally:
            inside.pop()

    def wrap(mod, name, op, two=True):
        real = getattr(mod, name)

        def w(*a, **kw):
            return call(op, a[0], a[1] if two and len(a) > 1 else None, real, a, kw)
        setattr(mod, name, w)
    real_open = builtins.open

    def wopen(file, mode="r", *a, **kw):
        if isinstance(file, (str, bytes)) and mode[:1] in ("w", "a", "x"):
            return call("open-" + mode[0], file, None, real_open, (file, mode) + a, kw)
        return real_open(file, mode, *a, **kw)
    builtins.open = wopen
    io.open = wopen
    wrap(os, "link", "link")
    wrap(os, "mkdir", "mkdir", False)
    wrap(os, "remove", "remove", False)
    wrap(os, "rename", "rename")
    wrap(shutil, "copyfile", "copy")
    wrap(shutil, "rmtree", "rmtree", False)
    try:
        import fs.copy
        import fs.base
        real_cf = fs.copy.copy_file

        def cf(src_fs, src_path, dst_fs, dst_path, *a, **kw):
            return call("copy", dst_path, dst_path, real_cf, (src_fs, src_path, dst_fs, dst_path) + a, kw)
        fs.copy.copy_file = cf
        import sys
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("multibag") and getattr(m, "copy_file", None) is real_cf:
                m.copy_file = cf
    except ImportError:
        pass
