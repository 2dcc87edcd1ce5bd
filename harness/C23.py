"""Turning a bag into a single-bag aggregation is faithful."""
from harness.lib import mkbag, drain, lines_of
from harness.rich import rich

COVERS = ["empty payload", "nested files", "tag files", "other tag directory", "nested tag directory", "tag manifest", "pid", "comment", "more info", "step by step", "appended", "truncated", "converted again",
          "trailing slash", "sender description", "multi-valued metadata", "validated", "two manifests", "read as a head bag", "restored", "leftovers"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names in a bag with one of 10 unusual names; bags of up to 3 payload and 2 tag files of two sizes, one or two manifests, with or without tag manifest, unrelated metadata and sender description; versions and locations of up to 3 characters; every combination of 4 include and 3 exclude lists; tag directories given or not",
          "thorough": "versions and locations of up to 5 characters"}
OUTSIDE = "the wording of the bag size; payload names with tabs or line ends; a bag that is a head bag of several members"
BUDGET = {"quick": 150, "thorough": 1500}


def cases(tier):
    t = tier == "thorough"
    return [("convert", {"desc": d}) for d in ("none", "text", "about", "list")] + [("values", {"k": 5 if t else 3}), ("steps", {}), ("lookup", {}), ("rich", {}), ("stale", {})]


def make(ctx, root, desc="none"):
    files = []
    if ctx.flag("a"):
        files.append(("data/a", "a", ctx.choice("sa", [0, 12345])))
    if ctx.flag("d"):
        ctx.cover("nested files")
        files.append(("data/d/e f", "b", 7))
        files.append(("data/d/g/h", "c", 0))
    if files == []:
        ctx.cover("empty payload")
    if ctx.flag("t"):
        ctx.cover("tag files")
        files += [("meta/t", "t\n"), ("u.txt", "u", 3)]
    info = [("X-Other", "one"), ("Bag-Count", "1 of 2"), ("Contact-Name", "me")]
    if desc != "none":
        ctx.cover("sender description")
        info.append(("Internal-Sender-Description", "mine" if desc != "about" else "see the Multibag-Reference URL"))
        if desc == "list":
            info.append(("Internal-Sender-Description", "mine too"))
            info.append(("X-Other", "two"))
            ctx.cover("multi-valued metadata")
    algs = ("sha256",)
    if ctx.flag("two"):
        ctx.cover("two manifests")
        algs = ("sha256", "md5")
    tm = ()
    if ctx.flag("tm"):
        ctx.cover("tag manifest")
        tm = ("sha256",)
    mkbag(ctx, root, files, algs, info, tm)
    return files


def as_list(x):
    return list(x) if isinstance(x, list) else [x]


OWN = ["Multibag-Version", "Multibag-Reference", "Multibag-Head-Version", "Multibag-Tag-Directory", "Internal-Sender-Description", "Bag-Size", "Bag-Count"]


def verify(ctx, root, before, info0, td, name, version, mem, lookup, complete=True):
    """the converted bag: before and info0 are the snapshot and metadata from before"""
    from multibag.access.bagit import open_bag, Bag
    from multibag.access.multibag import open_headbag
    from multibag.validate.headbag import HeadBagValidator
    after = ctx.snapshot(root)
    std = ("bag-info.txt",)
    for k in before:
        ctx.check(k in after, "nothing is removed (%s)" % (k,))
        if before[k][0] == "f" and k not in std and not k.startswith("tagmanifest-") and not k.startswith(td + "/"):
            ctx.check(after[k][1] == before[k][1], "payload, tag files and manifests are as before (%s)" % (k,))
    for k in after:
        if k not in before:
            ctx.check(k == td or td.startswith(k + "/") or k in (td + "/member-bags.tsv", td + "/file-lookup.tsv") or k.startswith("tagmanifest-"),
                      "only multibag tag files and tag manifests are added (%s)" % (k,))
    # metadata
    info = open_bag(root).info
    for k in info0:
        if k not in OWN:
            ctx.check(k in info and as_list(info[k]) == as_list(info0[k]), "unrelated metadata is as before (%s)" % (k,))
    for k in info:
        ctx.check(k in info0 or k in OWN, "no unrelated metadata is added (%s)" % (k,))
    ctx.check(info.get("Multibag-Version") == "0.4", "the profile version")
    ctx.check(info.get("Multibag-Head-Version") == version, "the version asked for")
    ctx.check(info.get("Multibag-Tag-Directory") == td, "the tag directory")
    ctx.check("Multibag-Reference" in info, "the reference to the profile")
    ctx.check("Bag-Count" not in info and "Bag-Size" in info, "a bag size and no bag count")
    if "Internal-Sender-Description" in info0:
        now = as_list(info["Internal-Sender-Description"])
        for x in as_list(info0["Internal-Sender-Description"]):
            ctx.check(x in now, "the sender's descriptions are kept")
    # member list and lookup
    hb = open_headbag(root)
    ms = hb.member_bags()
    ctx.check(len(ms) == 1 and ms[0].name == name, "the bag is its only member")
    ctx.check(ms[0].uri == mem[0] and ms[0].comment == mem[1] and list(ms[0].info) == list(mem[2]), "the member has the location and remarks given")
    got = {}
    for f, b in hb.iter_file_lookup():
        ctx.check(b == name and f not in got, "every path is looked up once, in the bag itself (%s)" % (f,))
        got[f] = b
    ctx.check(sorted(got.keys()) == sorted(lookup), "the lookup list has the files asked for")
    lines = lines_of(ctx, root + "/" + td + "/file-lookup.tsv")
    ctx.check(lines is not None and len(lines) == len(lookup), "the lookup list is on disk")
    ctx.cover("read as a head bag")
    # validity
    open_bag(root).validate()
    Bag(root).validate()
    if complete:
        bad = [i for i in HeadBagValidator(root).validate().failed() if i.type == 1]
        ctx.check(bad == [], "the result is a valid head bag: %s" % (", ".join([b.label for b in bad]),))
        ctx.cover("validated")


def run(ctx, case, **p):
    from multibag.amend import SingleMultibagMaker, make_single_multibag
    from multibag.access.bagit import open_bag
    root = ctx.path("s", "b")
    if case == "convert":
        files = make(ctx, root, p["desc"])
        pay = [f[0] for f in files if f[0].startswith("data/")]
        before, info0 = ctx.snapshot(root), dict(open_bag(root).info)
        loc = root
        if ctx.flag("slash"):
            ctx.cover("trailing slash")
            loc = root + "/"
        td = ctx.choice("td", ["multibag", "mb", "x/mb"])
        if td == "multibag" and ctx.flag("fn"):
            make_single_multibag(loc, "2.0")
        else:
            if td != "multibag":
                ctx.cover("other tag directory" if td == "mb" else "nested tag directory")
            SingleMultibagMaker(loc, td).convert("2.0")
        verify(ctx, root, before, info0, td, "b", "2.0", (None, None, []), pay)
        if ctx.flag("again"):
            ctx.cover("converted again")
            if td == "multibag":
                make_single_multibag(loc, "3.0", "doi:10/1")
            else:
                SingleMultibagMaker(loc, td).convert("3.0", "doi:10/1")
            verify(ctx, root, before, info0, td, "b", "3.0", ("doi:10/1", None, []), pay)
    elif case == "values":
        mkbag(ctx, root, [("data/a", "a", 4), ("m", "m\n")], ("sha256",), [("X", "y")], ("sha256",))
        before, info0 = ctx.snapshot(root), dict(open_bag(root).info)
        v = ctx.text("v", 1, p["k"], "12.a")
        u = None
        if ctx.flag("pid"):
            ctx.cover("pid")
            u = "doi:" + ctx.text("u", 1, p["k"], "1a.")
        if ctx.flag("default"):
            make_single_multibag(root, pid=u)
            v = "1"
        else:
            make_single_multibag(root, v, u)
        verify(ctx, root, before, info0, "multibag", "b", v, (u, None, []), ["data/a"])
        if ctx.flag("restore"):
            from multibag.restore import restore_bag
            ctx.cover("restored")
            restore_bag(root, ctx.path("o"))
            r = ctx.snapshot(ctx.path("o"))
            ctx.check("data/a" in r and r["data/a"][1] == before["data/a"][1] and "m" in r and "multibag" not in r, "the aggregation restores to the bag")
    elif case == "rich":
        # unusual names, of the bag too, and unusual metadata
        k = ctx.choice("k", list(range(10)))
        name = ["b", "b.c", "b c", "B#1", "\u00e9", ".b", "multibag", "data", "b-1.2.zip", "# b"][k]
        root = ctx.path("s", "x") + "/" + name
        files = rich()
        info = [("X-Other", "one"), ("multibag-version", "low"), ("X-Multibag-Version", "x"), ("Multibagger", "y"), ("Empty", ""), ("Bag-Group-Identifier", "g"), ("External-Identifier", "ark:/1/2"), ("Twice", "b"), ("Twice", "a"),
                ("Bagging-Date", "2001-01-01"), ("Bag-Software-Agent", "mine"), ("Z", "\u00e9 # :"), ("Long", "w " * 60 + "end")]
        mkbag(ctx, root, files, ("sha256", "md5"), info, [(), ("sha256",), ("md5", "sha1")][k % 3])
        pay = [f[0] for f in files if f[0].startswith("data/") and len(f) == 3]
        tags = [f[0] for f in files if not f[0].startswith("data/") and len(f) == 3]
        before, info0 = ctx.snapshot(root), dict(open_bag(root).info)
        how = ctx.choice("how", ["convert", "all", "tags", "one"])
        td = ["multibag", "meta/a", "m.b"][(k // 3) % 3]
        pid = [None, "http://x.org/a%20b?c=#d", "ark:/1/2"][(k + k // 3) % 3]
        m = SingleMultibagMaker(root, td)
        if how == "convert":
            m.convert("2.0", pid)
            exp = pay
            com, more = None, []
        else:
            com, more = ("# c # d", ["# x", "1 2"]) if pid is not None else (None, [])
            com = "c # d \u00e9" if com else None
            more = ["x#", "1 2"] if com else []
            m.write_member_bags(pid, com, *more)
            if how == "all":
                m.write_file_lookup(["data", "data.md", "database", "meta", "notes", "about.txt"])
                exp = pay + [f for f in tags if f.split("/")[0] in ("data.md", "database", "meta", "notes", "about.txt")]
            elif how == "tags":
                m.write_file_lookup(["meta"], ["meta/a", "meta/.h"])
                exp = ["meta/m", "meta/p%q"]
            else:
                one = ctx.choice("one", ["data/.hidden", "data/x/y", "data/A", "data/e2", "data/x y", "data/#h", "data/0", "data/e"])
                m.write_file_lookup(["data"], [one])
                exp = [f for f in pay if f != one and not f.startswith(one + "/")]
            m.update_info("2.0")
        if td == "meta/a" and how == "all":
            # the multibag files themselves are below what was asked for
            exp = exp + [td + "/member-bags.tsv"]
        verify(ctx, root, before, info0, td, name, "2.0", (pid, com, more), exp, how == "convert")
    elif case == "stale":
        # multibag files and metadata left over from something else do not leak into the result
        ctx.cover("leftovers")
        td = ctx.choice("td", ["multibag", "mb"])
        info = [("X", "y")]
        old = ctx.choice("old", [None, "old", "mb", "multibag"])
        if old:
            info.append(("Multibag-Tag-Directory", old))
        if ctx.flag("head"):
            info += [("Multibag-Version", "0.3"), ("Multibag-Head-Version", "9")]
        files = [("data/a", "a", 4), ("data/d/b", "b", 1)]
        have = old if old and td == "multibag" else td
        if ctx.flag("lookup"):
            files.append((have + "/file-lookup.tsv", "data/gone\tother\ndata/a\tother\n"))
        if ctx.flag("members"):
            files.append((have + "/member-bags.tsv", "other\nb\thttp://x.org\n"))
        mkbag(ctx, root, files, ("sha256",), info, ("sha256",) if ctx.flag("tm") else ())
        before, info0 = ctx.snapshot(root), dict(open_bag(root).info)
        if td == "multibag" and ctx.flag("fn"):
            make_single_multibag(root, "2.0")
        else:
            SingleMultibagMaker(root, td).convert("2.0")
        # the default is the bag's own tag directory
        verify(ctx, root, before, info0, have, "b", "2.0", (None, None, []), ["data/a", "data/d/b"])
    elif case == "steps":
        ctx.cover("step by step")
        files = make(ctx, root)
        pay = [f[0] for f in files if f[0].startswith("data/")]
        before, info0 = ctx.snapshot(root), dict(open_bag(root).info)
        m = SingleMultibagMaker(root)
        uri = "http://x.org/b" if ctx.flag("uri") else None
        com = "a remark" if ctx.flag("com") else None
        more = []
        if com is not None:
            ctx.cover("comment")
            if uri is not None and ctx.flag("more"):
                ctx.cover("more info")
                more = ["x", "y z"]
        order = ctx.choice("order", ["mlu", "lmu", "ulm", "mul"])
        for s in order:
            if s == "m":
                m.write_member_bags(uri, com, *more)
            elif s == "l":
                m.write_file_lookup()
            else:
                m.update_info("7")
        # the tag manifests are brought up to date by saving the metadata
        if order[-1] != "u":
            m.update_info("7")
        verify(ctx, root, before, info0, "multibag", "b", "7", (uri, com, more), pay)
    else:
        files = ["data/a", "data/d/b", "meta/t", "meta/s/w", "u.txt"]
        mkbag(ctx, root, [(f, f, 3) for f in files], ("sha256",), [("X", "y")])
        before, info0 = ctx.snapshot(root), dict(open_bag(root).info)
        incs = [None, ["data/d"], ["meta", "u.txt"], ["data/a", "data/nope", "./meta/"]]
        excs = [None, ["data/d"], ["meta/s", "data/a"]]
        norm = {"./meta/": "meta"}
        m = SingleMultibagMaker(root)
        m.write_member_bags()
        exp = []
        for i in range(2):
            inc, exc = ctx.choice("i%d" % i, incs), ctx.choice("e%d" % i, excs)
            tr = i == 1 and ctx.flag("trunc")
            if tr:
                ctx.cover("truncated")
                exp = []
            elif i == 1:
                ctx.cover("appended")
                if ctx.flag("new object"):
                    m = SingleMultibagMaker(root)
            m.write_file_lookup(inc, exc, tr)
            el = exc or []
            for x in inc or ["data"]:
                x = norm.get(x, x)
                if x in el:
                    continue
                for f in files:
                    if f == x or (f.startswith(x + "/") and f not in el and not [e for e in el if f.startswith(e + "/")]):
                        if f not in exp:
                            exp.append(f)
        m.update_info("1")
        verify(ctx, root, before, info0, "multibag", "b", "1", (None, None, []), exp, False)
