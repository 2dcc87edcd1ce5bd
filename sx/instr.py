"""Source-to-source instrumentation and module loading.

The real sources (multibag from /repo's working tree, bagit, parts of the standard library and of
PyFilesystem) are parsed on every run, rewritten so that operations CPython resolves in C go
through hooks.py, and executed in a private module registry.  Nothing is cached between runs.
"""
import ast
import builtins
import os
import sys
import types

from . import hooks

REPO = os.environ.get("SX_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_BIN = {ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-", ast.BitXor: "^"}
_LEAVE = {"super", "locals", "globals", "vars", "dir"}


def _sx(name, *args, **kw):
    return ast.Call(func=ast.Attribute(value=ast.Name("_sx", ast.Load()), attr=name, ctx=ast.Load()),
                    args=list(args), keywords=kw.get("keywords", []))


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def mangle(self, name):
        if self.cls and name.startswith("__") and not name.endswith("__"):
            return "_" + self.cls[-1].lstrip("_") + name
        return name

    # -- scopes
    def visit_ClassDef(self, node):
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.cls.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.cls.pop()
        return node

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None

    def visit_FunctionDef(self, node):
        self._args(node.args)
        node.returns = None
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self._args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if isinstance(node.target, ast.Name) and self.cls:
            if node.value is not None:
                node.value = self.visit(node.value)
            return node
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return ast.copy_location(ast.Assign(targets=[self.visit(node.target)], value=self.visit(node.value)), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        bare = node.type is None
        if not bare:
            names = node.type.elts if isinstance(node.type, ast.Tuple) else [node.type]
            bare = any(isinstance(n, ast.Name) and n.id == "BaseException" for n in names)
        if bare:
            node.body.insert(0, ast.Expr(_sx("chk_exc")))
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in _LEAVE:
            node.args = [self.visit(a) for a in node.args]
            return node
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            out = _sx("mcall", self.visit(f.value), ast.Constant(self.mangle(f.attr)), *args, keywords=kws)
        else:
            out = _sx("call", self.visit(f), *args, keywords=kws)
        return ast.copy_location(out, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, a, b = node.ops[0], node.left, node.comparators[0]
        if isinstance(op, ast.Eq):
            out = _sx("eq", a, b)
        elif isinstance(op, ast.NotEq):
            out = _sx("ne", a, b)
        elif isinstance(op, ast.In):
            out = _sx("contains", b, a)
        elif isinstance(op, ast.NotIn):
            out = _sx("not_", _sx("contains", b, a))
        elif isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            out = _sx("cmp", ast.Constant({ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]), a, b)
        else:
            return node
        return ast.copy_location(out, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_sx("mod", node.left, node.right), node)
        s = _BIN.get(type(node.op))
        if s:
            return ast.copy_location(_sx("binop", ast.Constant(s), node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        s = "%" if isinstance(node.op, ast.Mod) else _BIN.get(type(node.op))
        if s is None:
            return node
        t = node.target
        if isinstance(t, ast.Name):
            load = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            load = ast.Attribute(ast.Name(t.value.id, ast.Load()), t.attr, ast.Load())
        else:
            return node
        return ast.copy_location(
            ast.Assign(targets=[t], value=_sx("iop", ast.Constant(s), load, node.value)), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        node.value = ast.copy_location(_sx("sub", node.value), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(chr(v.conversion) if v.conversion != -1 else None)
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), conv, spec], ast.Load()))
        return ast.copy_location(_sx("fstr", *parts), node)

    def visit_Dict(self, node):
        if not node.keys:
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            kk = self.visit(k) if k is not None else \
                ast.Attribute(ast.Name("_sx", ast.Load()), "_splat", ast.Load())
            items.append(ast.Tuple([kk, self.visit(v)], ast.Load()))
        return ast.copy_location(_sx("mkdict", ast.Tuple(items, ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_sx("mkset", ast.Tuple(node.elts, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(_sx("mkdict", g), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(node.elt, node.generators)
        return ast.copy_location(_sx("mkset", g), node)

    def visit_FormattedValue(self, node):
        raise NotImplementedError

    def visit_Match(self, node):
        # match statements compare natively; patterns are left as they are
        self.generic_visit(node)
        return node

    def visit_MatchValue(self, node):
        return node

    visit_MatchMapping = visit_MatchClass = visit_MatchValue


def rewrite(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ------------------------------------------------------------------ modules
MODS = {}
SOURCES = {}         # instrumented module -> source file


class _Ns(types.ModuleType):
    def __init__(self, name, **kw):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(kw)


class _Logger(object):
    SX_OK = True
    handlers = ()
    level = 0
    disabled = False
    propagate = False

    def _nop(self, *a, **kw):
        return None
    _nop.SX_OK = True
    debug = info = warning = warn = error = critical = exception = log = setLevel = addHandler = _nop
    removeHandler = _nop

    def isEnabledFor(self, lvl):
        return True

    def getEffectiveLevel(self):
        return 10

    def getChild(self, name):
        return self


class _OsMini(object):
    """os for posixpath/genericpath"""
    name = "posix"
    sep = "/"

    @staticmethod
    def fspath(p):
        return hooks.VFSMOD.fspath(p)

    @staticmethod
    def fsencode(p):
        return hooks.VFSMOD.fspath(p)

    def getcwd(self):
        return hooks.VFSMOD.V.cwd

    @property
    def environ(self):
        return hooks.VFSMOD.vos.environ

    PathLike = os.PathLike
    stat = lstat = None


for _f in (_OsMini.fspath, _OsMini.fsencode):
    _f.SX_OK = True


def _lru_cache(*a, **kw):
    if len(a) == 1 and callable(a[0]) and not kw:
        return a[0]
    return lambda f: f


def _source(name):
    """(filename, is_package) of a module to instrument, or None"""
    if name == "multibag" or name.startswith("multibag."):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None
    if name == "tests" or name.startswith("tests."):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False
    if name == "bagit":
        return os.path.join(SITE, "bagit.py"), False
    if name in ("posixpath", "genericpath"):
        return "/usr/lib/python3.12/%s.py" % name, False
    if name in ("fnmatch", "glob", "filecmp", "pathlib") and hooks.VFSMOD is not None:
        return "/usr/lib/python3.12/%s.py" % name, False
    if name == "urllib.parse":
        return "/usr/lib/python3.12/urllib/parse.py", False
    if name in ("sxfs.errors", "sxfs.path"):
        return os.path.join(SITE, "fs", name[5:] + ".py"), False
    if name == "sx.vfs":
        return os.path.join(HERE, "sx", "vfs.py"), False
    if name == "harness" or name.startswith("harness."):
        p = os.path.join(HERE, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False
    return None


def _standin(name):
    v = hooks.VFSMOD
    if name in ("six", "sxfs.six"):
        return _Ns("six", text_type=str, string_types=(str,), PY2=False, PY3=True, binary_type=bytes,
                   integer_types=(int,), python_2_unicode_compatible=lambda c: c,
                   reraise=lambda t, val, tb=None: (_ for _ in ()).throw(val))
    if name == "functools":
        import functools
        m = _Ns("functools")
        m.__dict__.update((k, x) for k, x in functools.__dict__.items() if not k.startswith("__"))
        m.lru_cache = _lru_cache
        m.cmp_to_key = hooks.m_cmp_to_key
        m.cache = _lru_cache
        return m
    if name == "logging":
        import logging
        m = _Ns("logging")
        m.__dict__.update((k, x) for k, x in logging.__dict__.items() if not k.startswith("__"))
        lg = _Logger()
        m.getLogger = lambda *a: lg
        m.basicConfig = lambda *a, **k: None
        for k in ("debug", "info", "warning", "error", "critical", "exception", "log"):
            setattr(m, k, _Logger._nop)
        return m
    if name == "collections":
        import collections
        m = _Ns("collections")
        m.__dict__.update((k, x) for k, x in collections.__dict__.items() if not k.startswith("__"))
        m.OrderedDict = hooks._ODict
        return m
    if name == "pkg_resources":
        return _Ns("pkg_resources", DistributionNotFound=type("DistributionNotFound", (Exception,), {}),
                   get_distribution=lambda n: types.SimpleNamespace(version="1.8.1"))
    if name == "unicodedata":
        import unicodedata
        m = _Ns("unicodedata")
        m.__dict__.update((k, x) for k, x in unicodedata.__dict__.items() if not k.startswith("__"))
        nat = unicodedata.normalize

        def normalize(form, s):
            return s if isinstance(s, hooks.SymStr) else nat(form, s)
        normalize.SX_OK = True
        m.normalize = normalize
        return m
    if name == "mock":
        import unittest.mock
        return unittest.mock
    if v is None:
        return None
    if name == "os":
        return v.vos
    if name == "os.path":
        return v.vpath
    one = {"io": "vio", "shutil": "vshutil", "codecs": "vcodecs", "time": "vtime", "hashlib": "vhashlib",
           "tempfile": "vtempfile"}.get(name)
    if one:
        return getattr(v, one)
    if name == "fs":
        m = _Ns("fs", open_fs=v.open_fs)
        m.errors = load("fs.errors")
        m.path = load("fs.path")
        for s in ("osfs", "zipfs", "tarfs", "copy", "subfs", "base", "walk", "info"):
            setattr(m, s, load("fs." + s))
        m.__path__ = []
        return m
    if name == "fs.errors":
        return load("sxfs.errors")
    if name == "fs.path":
        return load("sxfs.path")
    if name == "fs.osfs":
        return _Ns(name, OSFS=v.OSFS)
    if name == "fs.zipfs":
        return _Ns(name, ZipFS=v.ZipFS, ReadZipFS=v.ZipFS)
    if name == "fs.tarfs":
        return _Ns(name, TarFS=v.TarFS, ReadTarFS=v.TarFS)
    if name == "fs.subfs":
        return _Ns(name, SubFS=v.SubFS)
    if name == "fs.copy":
        return _Ns(name, copy_file=v.copy_file, copy_file_internal=v.copy_file)
    if name == "fs.base":
        return _Ns(name, FS=v.FSBase)
    if name == "fs.walk":
        return _Ns(name, Walker=v.Walker)
    if name == "fs.info":
        return _Ns(name, Info=v.Info)
    return None


def load(name):
    m = MODS.get(name)
    if m is not None:
        return m
    src = _source(name)
    if src is not None:
        return _load_instr(name, *src)
    m = _standin(name)
    if m is not None:
        MODS[name] = m
        return m
    return None


def _load_instr(name, filename, ispkg):
    m = types.ModuleType(name)
    g = m.__dict__
    g["__file__"] = filename
    g["__sx__"] = True
    g["_sx"] = hooks
    g["__package__"] = name if ispkg else name.rpartition(".")[0]
    if ispkg:
        g["__path__"] = [os.path.dirname(filename)]
    b = dict(builtins.__dict__)
    b["__import__"] = _import
    if hooks.VFSMOD is not None:
        b["open"] = hooks.VFSMOD.v_open
    g["__builtins__"] = b
    MODS[name] = m
    hooks.INSTR_MODULES.add(name)
    SOURCES[name] = filename
    if os.path.exists(filename):
        with open(filename, encoding="utf-8") as fd:
            src = fd.read()
    else:
        src = ""
    try:
        exec(rewrite(src, filename), g)
    except BaseException:
        MODS.pop(name, None)
        raise
    parent, _, leaf = name.rpartition(".")
    if parent and parent in MODS:
        setattr(MODS[parent], leaf, m)
    return m


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals["__package__"]
        base = pkg.split(".")
        if level > 1:
            base = base[:len(base) - level + 1]
        name = ".".join(base + ([name] if name else []))
    if name == "os" or name == "os.path":
        if (globals or {}).get("__name__") in ("posixpath", "genericpath"):
            return _OsMini()
    top = name.split(".")[0]
    if top in ("sx",):
        if name == "sx.vfs":
            return load(name) if fromlist else builtins.__import__(top)
        return builtins.__import__(name, None, None, fromlist or (), 0) if fromlist else _sxtop(name)
    m = None
    if top in ("multibag", "harness", "fs", "tests"):
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            m = load(".".join(parts[:i]))
            if m is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
    else:
        m = load(name)
    if m is None:
        return builtins.__import__(name, globals if not level else None, locals, fromlist, 0)
    if fromlist:
        for f in fromlist:
            if f != "*" and getattr(m, "__path__", None) is not None and not hasattr(m, f):
                load(name + "." + f)
        return m
    if "." in name:
        if name == "os.path":
            return load("os")
        if name.startswith("urllib"):
            import urllib
            ns = _Ns("urllib")
            ns.parse = load("urllib.parse")
            return ns
        return MODS.get(top) or _Ns(top)
    return m


def _sxtop(name):
    builtins.__import__(name)
    return sys.modules["sx"]


def boot():
    """load the virtual environment; the code under test is loaded on first import"""
    hooks.VFSMOD = None
    MODS.clear()
    _Nsx = _Ns("sxfs")
    _Nsx.__path__ = []
    MODS["sxfs"] = _Nsx
    v = load("sx.vfs")
    hooks.VFSMOD = v
    for m in list(MODS):
        if isinstance(MODS[m], types.ModuleType) and "__sx__" in MODS[m].__dict__:
            MODS[m].__dict__["__builtins__"]["open"] = v.v_open
    return v
