import os
CASES = {}


def case(f):
    CASES[f.__name__] = f
    return f


def setup(ctx):
    r = ctx.path("t")
    ctx.mkdir(r + "/d/e")
    ctx.write(r + "/a.txt", "one\ntwo\n")
    ctx.write(r + "/d/b.TXT", "three")
    ctx.blob(r + "/d/c", "c", ctx.int("size", 0, 3000000))
    return r


@case
def tell(ctx):
    r = setup(ctx)
    with open(r + "/a.txt", "rb") as fd:
        ctx.check(fd.tell() == 0, "tell at start")
        fd.read(3)
        ctx.check(fd.tell() == 3, "tell")
        fd.seek(1)
        ctx.check(fd.read(2) == b"ne", "seek")
        fd.seek(0, 2)
        ctx.check(fd.tell() == 8, "tell at the end")
        fd.seek(-2, 2)
        ctx.check(fd.read() == b"o\n", "seek from the end")
    with open(r + "/d/c", "rb") as fd:
        n = 0
        while True:
            b = fd.read(1048576)
            if not b:
                break
            n += len(b)
            ctx.check(fd.tell() == n, "tell in a blob")
        ctx.check(n == ctx.size_of(r + "/d/c"), "all is read")
        fd.seek(0, os.SEEK_END)
        ctx.check(fd.tell() == n, "size by seeking")


@case
def iterblocks(ctx):
    import hashlib, functools
    r = setup(ctx)
    h = hashlib.sha256()
    with open(r + "/d/c", "rb") as fd:
        for b in iter(lambda: fd.read(65536 * 16), b""):
            h.update(b)
    h2 = hashlib.new("sha256")
    with open(r + "/d/c", "rb") as fd:
        h2.update(fd.read())
    ctx.check(h.hexdigest() == h2.hexdigest() == ctx.digest("sha256", r + "/d/c"), "block-wise hash")
    h = hashlib.md5()
    with open(r + "/d/c", "rb") as fd:
        for b in iter(functools.partial(fd.read, 1 << 20), b""):
            h.update(b)
    ctx.check(h.hexdigest() == ctx.digest("md5", r + "/d/c"), "block-wise hash with partial")
    with open(r + "/d/c", "rb") as fd:
        b = fd.read(1 << 20)
        h = hashlib.sha1()
        while b:
            h.update(b)
            b = fd.read(1 << 20)
    ctx.check(h.hexdigest() == ctx.digest("sha1", r + "/d/c"), "block-wise hash in a while loop")


@case
def walrus(ctx):
    import hashlib
    r = setup(ctx)
    h = hashlib.sha256()
    with open(r + "/d/c", "rb") as fd:
        while (b := fd.read(1 << 20)):
            h.update(b)
    ctx.check(h.hexdigest() == ctx.digest("sha256", r + "/d/c"), "block-wise hash")


@case
def listing(ctx):
    import glob, fnmatch, pathlib, filecmp, shutil
    r = setup(ctx)
    ctx.check(sorted(e.name for e in os.scandir(r)) == ["a.txt", "d"], "scandir")
    with os.scandir(r) as it:
        ctx.check([e.name for e in it if e.is_dir()] == ["d"], "scandir as context")
    ctx.check([os.path.basename(x) for x in glob.glob(r + "/*.txt")] == ["a.txt"], "glob")
    ctx.check(sorted(glob.glob(r + "/**", recursive=True))[-1] == r + "/d/e", "recursive glob")
    ctx.check(sorted(p.name for p in pathlib.Path(r).iterdir()) == ["a.txt", "d"], "pathlib")
    ctx.check(sorted(str(p) for p in pathlib.Path(r).rglob("*.TXT")) == [r + "/d/b.TXT"], "rglob")
    p = pathlib.Path(r) / "d" / "b.TXT"
    ctx.check(p.exists() and p.is_file() and p.read_text() == "three" and p.stat().st_size == 5, "pathlib file")
    ctx.check(p.relative_to(r).as_posix() == "d/b.TXT" and p.suffix == ".TXT" and p.stem == "b" and p.parent.name == "d", "pathlib names")
    (pathlib.Path(r) / "n" / "m").mkdir(parents=True, exist_ok=True)
    (pathlib.Path(r) / "n" / "x").write_text("y")
    ctx.check(os.path.isdir(r + "/n/m") and ctx.text_of(r + "/n/x") == "y", "pathlib changes")
    with pathlib.Path(r, "n", "x").open("a") as fd:
        fd.write("z")
    ctx.check(ctx.text_of(r + "/n/x") == "yz", "pathlib append")
    pathlib.Path(r, "n", "x").unlink()
    ctx.check(not os.path.exists(r + "/n/x"), "pathlib unlink")
    ctx.check(fnmatch.fnmatch("a.txt", "*.txt") and not fnmatch.fnmatchcase("a.TXT", "*.txt"), "fnmatch")
    shutil.copyfile(r + "/a.txt", r + "/z")
    ctx.check(filecmp.cmp(r + "/a.txt", r + "/z", shallow=False), "filecmp")
    ctx.check(not filecmp.cmp(r + "/a.txt", r + "/d/b.TXT"), "filecmp differs")
    os.replace(r + "/z", r + "/y")
    ctx.check(os.path.getsize(r + "/y") == 8 and not os.path.lexists(r + "/z"), "replace")
    ctx.check(os.path.commonpath([r + "/a", r + "/d/b"]) == r and os.path.commonprefix(["data/ab", "data/ac"]) == "data/a", "common paths")
    ctx.check(os.access(r + "/y", os.R_OK) and os.stat(r + "/y").st_nlink == 1, "access")
    shutil.copytree(r + "/d", r + "/dd")
    ctx.check(sorted(os.listdir(r + "/dd")) == ["b.TXT", "c", "e"], "copytree")
    ctx.check([(os.path.relpath(a, r), sorted(b), sorted(c)) for a, b, c in os.walk(r + "/dd", topdown=False)] == [("dd/e", [], []), ("dd", ["e"], ["b.TXT", "c"])], "walk bottom up")
    shutil.rmtree(r + "/dd")
    ctx.check(not os.path.exists(r + "/dd"), "rmtree")


@case
def symglob(ctx):
    import fnmatch, pathlib, glob
    r = ctx.path("t")
    n = ctx.text("n", 1, 2, "a.~*")
    ctx.assume(n != "." and n != "..")
    ctx.write(r + "/" + n, "x")
    ctx.check(os.listdir(r) == [n], "listdir")
    ctx.check(fnmatch.fnmatch(n, "*~") == n.endswith("~"), "fnmatch of a symbolic name")
    ctx.check(fnmatch.filter([n], ".*") == ([n] if n.startswith(".") else []), "fnmatch.filter")
    ctx.check([p.name for p in pathlib.Path(r).iterdir()] == [n], "pathlib of a symbolic name")
    ctx.check((pathlib.PurePosixPath("data") / n).as_posix() == "data/" + n, "pure path")
    ctx.check(len(glob.glob(r + "/*")) == (0 if n.startswith(".") else 1), "glob hides")


@case
def strings(ctx):
    s = ctx.text("s", 0, 3, "aA/ .")
    ctx.check((s.removeprefix("a/") == s[2:]) == (s.startswith("a/") or s[2:] == s), "removeprefix")
    ctx.check(s.removesuffix(".") == (s[:-1] if s.endswith(".") else s), "removesuffix")
    ctx.check(s.casefold() == s.lower(), "casefold")
    a, b, c = s.partition("/")
    ctx.check(a + b + c == s and (b == "/") == ("/" in s), "partition")
    a, b, c = s.rpartition("/")
    ctx.check(a + b + c == s and "/" not in c, "rpartition")
    ctx.check("/".join(s.split("/")) == s and "/".join(s.rsplit("/", 1)) == s, "split")
    ctx.check(s.zfill(4) == "0" * (4 - len(s)) + s, "zfill")
    ctx.check(s.ljust(4, "x") == s + "x" * (4 - len(s)), "ljust")
    ctx.check(s.rjust(4) == " " * (4 - len(s)) + s, "rjust")
    ctx.check(s.swapcase().swapcase() == s, "swapcase")
    ctx.check(s.translate(str.maketrans("a", "b")) == s.replace("a", "b"), "translate")
    ctx.check(s[::-1][::-1] == s, "reversal")
    ctx.check("".join(reversed(s)) == s[::-1], "reversed")
    ctx.check(f"<{s}>" == "<" + s + ">" and "<%s>" % s == "<{}>".format(s) == "<{0}>".format(s) == "<{x}>".format(x=s), "formatting")
    ctx.check(f"{s!s}{len(s):d}" == s + str(len(s)), "f-string")
    ctx.check("%-4s|" % s == s.ljust(4) + "|" and f"{s:<4}|" == s.ljust(4) + "|" and "%4s" % s == s.rjust(4), "padding")
    ctx.check((s.find("/") >= 0) == ("/" in s) and (s.count("/") > 0) == ("/" in s) and (s.rfind("/") >= 0) == ("/" in s), "find")
    ctx.check(s.startswith(("a", "A")) == (s[:1] in ("a", "A")), "startswith a tuple")
    ctx.check(not s or s[0] == s[:1], "indexing")
    ctx.check(s.isspace() == (s != "" and s.strip() == ""), "isspace")
    ctx.check(s.encode("utf-8").decode("utf-8") == s, "encode")
    ctx.check(s.title().lower() == s.lower() and s.capitalize().lower() == s.lower(), "title")
    ctx.check(s.splitlines() == ([s] if s else []), "splitlines")
    ctx.check(s.expandtabs() == s, "expandtabs")
    ctx.check(str.lower(s) == s.lower() and str.join("/", [s, s]) == s + "/" + s, "unbound methods")


@case
def regex(ctx):
    import re
    s = ctx.text("s", 0, 3, "aA/ .#")
    ctx.check((re.fullmatch(r"a+", s) is not None) == (s != "" and s.replace("a", "") == ""), "fullmatch")
    ctx.check(re.sub(r"/+", "/", s).count("//") == 0, "sub")
    ctx.check(re.subn("a", "b", s)[1] == s.count("a"), "subn")
    ctx.check([m.group() for m in re.finditer("a", s)] == ["a"] * s.count("a"), "finditer")
    ctx.check(len(re.findall("[/#]", s)) == s.count("/") + s.count("#"), "findall")
    ctx.check("".join(re.split(r"([/#])", s)) == s, "split with groups")
    ctx.check((re.search(r"(?i)^a", s) is not None) == s.lower().startswith("a"), "ignore case")
    m = re.match(r"(?P<x>[^/]*)/(?P<y>.*)$", s)
    if m:
        ctx.check(m.group("x") + "/" + m["y"] == s and m.groupdict()["x"] == m.group(1) and m.span(1)[0] == 0, "named groups")
    ctx.check(re.escape(s).replace("\\", "") == s, "escape")


@case
def containers(ctx):
    import collections, itertools, functools, operator, copy
    s = ctx.text("s", 0, 2, "ab")
    t = ctx.text("t", 0, 2, "ab")
    d = collections.defaultdict(list)
    d[s].append(1)
    d[t].append(2)
    ctx.check(len(d) == (1 if s == t else 2) and d[s][0] == 1, "defaultdict")
    c = collections.Counter([s, t])
    ctx.check(c[s] == (2 if s == t else 1), "Counter")
    ctx.check(c.most_common(1)[0][1] == (2 if s == t else 1), "most_common")
    ctx.check(len({s, t}) == (1 if s == t else 2) and len({s: 1, t: 2}) == len(set([s, t])) == len(frozenset((s, t))), "sets")
    ctx.check(({s} & {t} == {s}) == (s == t) and ({s} - {t} == set()) == (s == t) and {s} | {t} == {t, s} and ({s} <= {t}) == (s == t), "set operators")
    ctx.check({k: v for k, v in zip([s, t], [1, 2])}[t] == 2 and {x for x in [s, t]} == {s, t}, "comprehensions")
    ctx.check(list(dict.fromkeys([s, t, s])) == ([s] if s == t else [s, t]), "fromkeys")
    ctx.check(sorted([s, t]) == [min(s, t), max(s, t)] and sorted([s, t], reverse=True) == [max(s, t), min(s, t)], "sorted")
    ctx.check(sorted([(s, 1), (t, 2)], key=operator.itemgetter(0))[0][0] == min(s, t), "itemgetter")
    ctx.check(sorted([s, t], key=lambda x: (len(x), x))[0] == (s if (len(s), s) <= (len(t), t) else t), "sorted by tuple")
    ctx.check([k for k, g in itertools.groupby([s, t])] == ([s] if s == t else [s, t]), "groupby")
    ctx.check(list(itertools.chain([s], [t])) == [s, t] and list(itertools.chain.from_iterable([[s], [t]])) == [s, t], "chain")
    ctx.check(functools.reduce(lambda a, b: a + b, [s, t]) == s + t, "reduce")
    ctx.check(any(x == s for x in [t]) == (s == t) and all(map(lambda x: x == s, [s, t])) == (s == t), "any, all")
    ctx.check(list(filter(None, [s, t])) == [x for x in (s, t) if x], "filter")
    ctx.check([i for i, x in enumerate([s, t]) if x == t][-1] == 1, "enumerate")
    ctx.check([s, t].index(t) == (0 if s == t else 1) and [s, t].count(s) == (2 if s == t else 1), "index")
    ctx.check(next((x for x in [s, t] if x == t), None) == t, "next")
    ctx.check(copy.deepcopy([s, {t: s}])[1][t] == s and copy.copy([s]) == [s], "copy")
    q = collections.deque([s])
    q.appendleft(t)
    ctx.check(list(q) == [t, s] and q.pop() == s, "deque")
    od = collections.OrderedDict([(s, 1), (t, 2)])
    od.move_to_end(s)
    ctx.check(list(od)[-1] == s and (s in od) and od.pop(s) and (s in od) == False, "OrderedDict")
    d = {s: 1}
    d.update({t: 2})
    ctx.check(d | {s: 3} == ({s: 3} if s == t else {s: 3, t: 2}) and d.setdefault(t, 4) == 2 and d.get(s + "x") is None, "dict methods")
    a, *b = [s, t]
    ctx.check(a == s and b == [t] and [*b, a] == [t, s] and {**{s: 1}, **{t: 2}}[t] == 2, "unpacking")
    NT = collections.namedtuple("NT", "x y")
    ctx.check(NT(s, t).x == s and NT(s, t)._replace(x=t).x == t and tuple(NT(s, t)) == (s, t), "namedtuple")
    ctx.check(str(s) == s and "".join([s, t]) == s + t and (s or "z") == (s if s else "z") and bool(s) == (len(s) > 0), "plain")
    ctx.check((s, 1) < (t, 2) if s <= t else (s, 1) > (t, 2), "tuples compare")
    ctx.check(list(itertools.zip_longest([s], [])) == [(s, None)] and list(itertools.islice([s, t], 1)) == [s] and list(itertools.takewhile(lambda x: x == s, [s, t])) == ([s, t] if s == t else [s]), "itertools")
    ctx.check(functools.partial(lambda a, b: a + b, s)(t) == s + t, "partial")


@case
def numbers(ctx):
    import math
    n = ctx.int("n", 0, 50)
    m = ctx.int("m", 1, 4)
    ctx.check(divmod(n, 7) == (n // 7, n % 7), "divmod")
    ctx.check(math.ceil(n / 4) == (n + 3) // 4 and math.floor(n / 4) == n // 4, "ceil")
    ctx.check(min(n, m) <= max(n, m) and abs(-n) == n and sum([n, m]) == n + m and sum(x for x in (n, m)) == n + m, "min")
    ctx.check(int(str(n)) == n and int("%d" % n) == n and int(f"{n}") == n, "text of a number")
    ctx.check(f"{n:04d}" == "%04d" % n and "{0:>4}".format(n) == str(n).rjust(4), "padding")
    ctx.check(round(n / 2) in (n // 2, n // 2 + 1), "round")
    ctx.check(len(range(n)) == n and list(range(m))[-1] == m - 1, "range")
    ctx.check(0 <= n <= 50 and (n << 1) == 2 * n and (n >> 1) == n // 2, "shift")
    ctx.check(n ** 2 == n * n and -(-n // m) >= n // m, "power")
    ctx.check(float(n) == n and int(n / 1) == n and n.bit_length() <= 6, "float")
    ctx.check("," not in "{:,}".format(n), "thousands")


@case
def control(ctx):
    import contextlib
    s = ctx.text("s", 0, 2, "ab")
    match s:
        case "a":
            got = 1
        case "" | "b":
            got = 2
        case _:
            got = 3
    ctx.check(got == (1 if s == "a" else 2 if s in ("", "b") else 3), "match")
    n = ctx.int("n", 0, 3)
    match n:
        case 0:
            got = "z"
        case x if x > 2:
            got = "b"
        case _:
            got = "o"
    ctx.check(got == ("z" if n == 0 else "b" if n > 2 else "o"), "match with guard")

    @contextlib.contextmanager
    def cm():
        yield s
    with cm() as x:
        ctx.check(x == s, "contextmanager")
    with contextlib.suppress(KeyError):
        {}[s]
    try:
        {"a": 1}[s]
        ok = True
    except KeyError as ex:
        ok = False
        ctx.check(ex.args[0] == s, "KeyError")
    finally:
        pass
    ctx.check(ok == (s == "a"), "try")
    for i in range(3):
        if i == n:
            break
    else:
        i = 3
    ctx.check(i == n, "for else")

    def gen():
        got = yield s
        yield from [got, s]
    g = gen()
    ctx.check(next(g) == s and g.send(1) == 1 and list(g) == [s], "generators")
    ctx.check((lambda *a, **k: (a, k))(s, x=s) == ((s,), {"x": s}), "lambda")
    assert isinstance(s, str), "isinstance"
    ctx.check(isinstance(s, (str, bytes)) and not isinstance(s, list) and type(s) is not int, "types")
    ctx.check(hasattr(s, "lower") and getattr(s, "lower")() == s.lower() and callable(s.lower), "getattr")
    import dataclasses

    @dataclasses.dataclass
    class D:
        x: str
        y: list = dataclasses.field(default_factory=list)
    ctx.check(D(s) == D(s) and D(s).x == s and dataclasses.replace(D(s), x="q").x == "q", "dataclass")
    ctx.check(id(s) == id(s) and repr(s).strip("'") == s, "repr")


@case
def texts(ctx):
    import io, json, shutil, csv, codecs, tempfile
    r = ctx.path("t")
    s = ctx.text("s", 0, 2, "a\n ")
    ctx.mkdir(r)
    with io.open(r + "/f", "w", encoding="utf-8") as fd:
        print(s, file=fd)
        fd.writelines([s, "x\n"])
        ctx.check(fd.tell() == 2 * len(s) + 3, "tell when writing")
    ctx.check(ctx.text_of(r + "/f") == s + "\n" + s + "x\n", "print to a file")
    with open(r + "/f") as fd:
        ctx.check(fd.read().splitlines() == [x for x in (s + "\n" + s + "x").split("\n")], "lines")
    with open(r + "/f") as fd:
        first = fd.readline()
        rest = fd.readlines()
        ctx.check(first + "".join(rest) == s + "\n" + s + "x\n", "readline")
    with open(r + "/f") as fd:
        ctx.check([ln.rstrip("\n") for ln in fd if ln.strip()][-1].endswith("x"), "iteration")
    with open(r + "/f", "r+") as fd:
        t = fd.read()
        fd.seek(0)
        fd.truncate()
        fd.write(t.upper())
    ctx.check(ctx.text_of(r + "/f") == (s + "\n" + s + "x\n").upper(), "rewriting in place")
    b = io.StringIO()
    b.write(s)
    b.write("x")
    ctx.check(b.getvalue() == s + "x", "StringIO")
    ctx.check("".join(io.StringIO(s + "\nq")) == s + "\nq", "StringIO lines")
    with codecs.open(r + "/g", "w", "utf-8") as fd:
        fd.write(s)
    ctx.check(ctx.text_of(r + "/g") == s, "codecs.open")
    with tempfile.TemporaryDirectory(dir=r) as td:
        ctx.write(td + "/x", s)
        shutil.move(td + "/x", r + "/h")
    ctx.check(ctx.text_of(r + "/h") == s and not os.path.exists(td), "temporary directory")
    with tempfile.NamedTemporaryFile("w", dir=r, delete=False) as fd:
        fd.write(s)
    os.rename(fd.name, r + "/i")
    ctx.check(ctx.text_of(r + "/i") == s, "temporary file")
    h, n = tempfile.mkstemp(dir=r)
    with os.fdopen(h, "w") as fd:
        fd.write(s)
    os.replace(n, r + "/i")
    ctx.check(ctx.text_of(r + "/i") == s, "mkstemp")
    with open(r + "/f", "rb") as a, open(r + "/k", "wb") as b:
        shutil.copyfileobj(a, b)
    ctx.check(ctx.text_of(r + "/k") == ctx.text_of(r + "/f"), "copyfileobj")
    with open(r + "/f", "rb") as a, open(r + "/k", "wb") as b:
        for ln in a:
            b.write(ln)
    ctx.check(ctx.text_of(r + "/k") == ctx.text_of(r + "/f"), "binary lines")


@case
def fswalk(ctx):
    from fs.osfs import OSFS
    r = setup(ctx)
    ctx.write(r + "/d/.h", "x")
    ctx.write(r + "/.g/y", "x")
    f = OSFS(r)
    ctx.check(sorted(f.walk.files(filter=["*.txt"])) == ["/a.txt"], "filter")
    ctx.check(sorted(f.walk.files(exclude=["*.t*"])) == ["/.g/y", "/d/.h", "/d/b.TXT", "/d/c"], "exclude")
    ctx.check(sorted(f.walk.files(exclude_dirs=[".*"])) == ["/a.txt", "/d/.h", "/d/b.TXT", "/d/c"], "exclude_dirs")
    ctx.check(sorted(f.walk.files(max_depth=1)) == ["/a.txt"], "max_depth")
    ctx.check(sorted(f.walk.dirs(max_depth=1)) == ["/.g", "/d"], "max_depth of directories")
    ctx.check(sorted(f.walk.dirs(filter_dirs=["d"])) == ["/d"], "filter_dirs")
    ctx.check(sorted(f.filterdir("/", exclude_dirs=["*"]), key=lambda i: i.name)[0].name == "a.txt", "filterdir")
    ctx.check(sorted(i.name for i in f.filterdir("/", files=["*.txt"])) == [".g", "a.txt", "d"], "filterdir files")
    ctx.check(f.getsize("a.txt") == 8 and f.readtext("a.txt") == "one\ntwo\n" and f.isempty("d/e"), "plain")
    with f.openbin("a.txt") as fd:
        ctx.check(fd.read(2) == b"on" and fd.tell() == 2, "tell")
    ctx.check(f.opendir("d").listdir("/") == f.listdir("d"), "opendir")
    ctx.check(f.hash("a.txt", "md5") == ctx.digest("md5", r + "/a.txt"), "hash")
    ctx.check(f.getdetails("a.txt").size == 8 if hasattr(f, "getdetails") else True, "details")
    ctx.check(sorted(p for p, i in f.walk.info(namespaces=["details"]) if not i.is_dir and i.size == 8 and p != "/d/c") == ["/a.txt"], "info")
    ctx.check(f.exists("d") and not f.exists("nope"), "exists")
