"""A bag is judged valid exactly when content and manifests agree."""
from harness.lib import mkbag, lines_of, BAGIT
from harness.rich import rich

COVERS = ["valid", "missing file", "unlisted file", "wrong checksum", "wrong totals", "malformed totals", "fast form", "completeness form", "serialized",
          "tag file altered", "tag file missing", "fetch list", "no manifest", "no data directory"]
BOUNDS = {"quick": "one file of up to 3 MB altered at any of 5 positions; a fixed tree of 66 files with unusual names, any one altered, lost or unlisted; two payload files of any size up to 500 kB in two manifests, each entry absent, right or wrong, each file absent or present; recorded totals any numbers or malformed; any state of two tag manifest entries; directory, zip and tar; 12 kinds of fetch lists",
          "thorough": "three payload files"}
OUTSIDE = "unreadable files; several worker processes; file names changed by Unicode normalisation; bag versions other than 0.97 and 1.0"
BUDGET = {"quick": 150, "thorough": 2400}


def cases(tier):
    t = tier == "thorough"
    out = [("content", {"form": f, "n": 3 if t else 2, "algs": a, "oxum": o})
           for f in (("dir", "zip", "tar") if t else ("dir", "zip"))
           for a in ((1, 2) if f == "dir" or t else (1,)) for o in ((False, True) if a == 1 or t else (False,))]
    out.append(("oxum", {"form": "dir"}))
    out.append(("oxum", {"form": "tar"}))
    out.append(("tags", {"ver": "0.97"}))
    out.append(("tags", {"ver": "0.96"}))
    out.append(("structure", {}))
    out.append(("big", {}))
    for f in ("dir", "zip", "tar"):
        out.append(("rich", {"form": f}))
    out.append(("fetch", {}))
    out.append(("format", {}))
    return out


def wrong(alg):
    return "0" * {"md5": 32, "sha256": 64}[alg]


def pack(ctx, root, form):
    if form == "dir":
        return root
    ctx.cover("serialized")
    ctx.archive(root + "." + form, form, root, "b")
    ctx.rmtree(root)
    return root + "." + form


def judge(ctx, path, fast=False, comp=False):
    """None if valid; otherwise the error and the paths it names"""
    from multibag.access.bagit import open_bag, BagError, BagValidationError, FileMissing, UnexpectedFile, ChecksumMismatch
    bag = open_bag(path)
    try:
        ctx.check(bag.validate(fast=fast, completeness_only=comp) is True, "validate returns True")
        ok = None
    except BagValidationError as ex:
        det = []
        for d in ex.details or []:
            det.append(({FileMissing: "missing", UnexpectedFile: "unexpected", ChecksumMismatch: "checksum"}[type(d)], d.path))
        ok = sorted(set(det))
    except BagError:
        ok = []
    ctx.check(open_bag(path).is_valid(fast=fast, completeness_only=comp) == (ok is None), "is_valid agrees with validate")
    return ok


def run(ctx, case, **p):
    root = ctx.path("b", "b")
    if case == "content":
        names = ["data/a", "data/d/b", "data/c c"][:p["n"]]
        algs = ["sha256", "md5"][:p["algs"]]
        ctx.mkdir(root + "/data")
        ctx.write(root + "/bagit.txt", BAGIT)
        n, tot = 0, 0
        present = []
        for f in names:
            if ctx.flag("has " + f):
                ctx.blob(root + "/" + f, f, ctx.int("size " + f, 0, 500000))
                present.append(f)
                n = n + 1
                tot = tot + ctx.size_of(root + "/" + f)
        listed, bad = [], []
        for a in algs:
            text = ""
            for f in names:
                st = ctx.choice(a + f, [0, 1, 2] if f in present else [0, 2])
                if st == 1:
                    text = text + ctx.digest(a, root + "/" + f) + "  " + f + "\n"
                elif st == 2:
                    text = text + wrong(a) + "  " + f + "\n"
                    if f in present:
                        bad.append(f)
                if st and f not in listed:
                    listed.append(f)
            ctx.write(root + "/manifest-%s.txt" % a, text)
        oxok = True
        if p["oxum"]:
            k = ctx.int("bytes", 0, 2 * 10 ** 6)
            m = ctx.choice("count", [0, 1, 2, 3])
            ctx.write(root + "/bag-info.txt", "Payload-Oxum: %s.%s\n" % (k, m))
            oxok = ctx.flag("oxok")
            ctx.assume(oxok == (ctx.And(k == tot, m == n)))
            if not oxok:
                ctx.cover("wrong totals")
        names_ok = [("missing", f) for f in listed if f not in present] + [("unexpected", f) for f in present if f not in listed]
        sums_ok = [("checksum", f) for f in sorted(set(bad))]
        path = pack(ctx, root, p["form"])
        # the full form
        got = judge(ctx, path)
        if not oxok:
            ctx.check(got is not None, "wrong totals make the bag invalid")
        elif names_ok:
            ctx.cover("missing file" if [x for x in names_ok if x[0] == "missing"] else "unlisted file")
            ctx.check(got is not None, "a missing or unlisted file makes the bag invalid")
            ctx.check(got == sorted(names_ok), "exactly the missing and unlisted files are named")
        elif sums_ok:
            ctx.cover("wrong checksum")
            ctx.check(got is not None, "a wrong checksum makes the bag invalid")
            ctx.check(got == sums_ok, "exactly the files with a wrong checksum are named")
        else:
            ctx.cover("valid")
            ctx.check(got is None, "an intact bag is valid")
        # the completeness form
        ctx.cover("completeness form")
        got = judge(ctx, path, comp=True)
        if oxok:
            ctx.check((got is None) == (not names_ok), "the completeness form compares the names only")
        else:
            ctx.check(got is not None, "wrong totals make the bag incomplete")
        # the quick form
        ctx.cover("fast form")
        got = judge(ctx, path, fast=True)
        ctx.check((got is None) == (p["oxum"] and oxok), "the quick form compares the recorded totals only")
    elif case == "oxum":
        s1 = ctx.int("s1", 0, 1000)
        s2 = ctx.int("s2", 0, 1000)
        mkbag(ctx, root, [("data/a", "a", s1), ("data/b/c", "b", s2)], oxum=False)
        kind = ctx.choice("kind", ["num", "nodot", "empty", "letters", "neg", "twodots", "repeated", "repeated2", "spaces"])
        good = False
        if kind == "num" or kind.startswith("repeated"):
            k = ctx.int("bytes", 0, 3000)
            m = ctx.int("count", 0, 3)
            good = ctx.flag("good")
            ctx.assume(good == ctx.And(k == s1 + s2, m == 2))
            text = "Payload-Oxum: %s.%s\n" % (k, m)
            if kind == "repeated":
                text = text + "Payload-Oxum: 1.1\n"
            elif kind == "repeated2":
                text = text + text
        else:
            text = "Payload-Oxum: " + {"nodot": "12", "empty": "", "letters": "a.b", "neg": "-1.2", "twodots": "1.2.3", "spaces": "1 .2"}[kind] + "\n"
            ctx.cover("malformed totals")
        ctx.write(root + "/bag-info.txt", text)
        path = pack(ctx, root, p["form"])
        for fast in (False, True):
            ctx.check((judge(ctx, path, fast=fast) is None) == good, "the bag is valid precisely if the recorded totals match")
    elif case == "tags":
        v97 = p["ver"] == "0.97"
        form = ctx.choice("form", ["dir", "zip"])
        mkbag(ctx, root, [("data/a", "a", 1), ("meta/t", "t", 2), ("u", "u", 2)], bagit="BagIt-Version: %s\nTag-File-Character-Encoding: UTF-8\n" % p["ver"])
        text = ""
        exp_names, exp_sums = [], []
        for f in ("meta/t", "u", "bag-info.txt"):
            st = ctx.choice(f, ["right", "wrong", "unlisted", "gone"])
            if st in ("right", "gone"):
                text = text + "%s %s\n" % (ctx.digest("md5", root + "/" + f), f)
            elif st == "wrong":
                text = text + "%s  %s\n" % (wrong("md5"), f)
                exp_sums.append(("checksum", f))
                ctx.cover("tag file altered")
            if st == "gone":
                ctx.remove(root + "/" + f)
                exp_names.append(("missing", f))
                ctx.cover("tag file missing")
        ctx.write(root + "/tagmanifest-md5.txt", text)
        got = judge(ctx, pack(ctx, root, form))
        if not v97:
            ctx.check(got is None, "before version 0.97 tag files are not verified")
        elif exp_names:
            ctx.check(got == sorted(exp_names), "exactly the missing tag files are named")
        elif exp_sums:
            ctx.check(got == sorted(exp_sums), "exactly the altered tag files are named")
        else:
            ctx.check(got is None, "an intact bag is valid")
    elif case == "big":
        # files beyond the size of a block: a change anywhere in them counts
        form = ctx.choice("form", ["dir", "zip", "tar"])
        sz = ctx.int("size", 1, 3 * 10 ** 6)
        where = ctx.choice("where", ["data/a", "meta/t"])
        mkbag(ctx, root, [("data/a", "a", sz if where == "data/a" else 1), ("meta/t", "t", sz if where == "meta/t" else 1)], tagman=("sha256",))
        at = ctx.choice("at", [None, 0, 1, 600000, 1048576, 2100000])
        if at is not None:
            ctx.assume(at < sz)
            ctx.remove(root + "/" + where)
            ctx.blob_tail(root + "/" + where, where[-1], "other", sz, at)
        got = judge(ctx, pack(ctx, root, form))
        ctx.check(got == (None if at is None else [("checksum", where)]), "a change anywhere in a file makes the bag invalid")
    elif case == "rich":
        files = rich()
        names = [f[0] for f in files if len(f) == 3]
        mkbag(ctx, root, files, algs=("md5", "sha256"), tagman=("sha1",))
        bag_ok = judge(ctx, root)
        ctx.check(bag_ok is None, "an intact bag is valid whatever the names")
        f = ctx.choice("file", names)
        what = ctx.choice("what", ["altered", "lost", "unlisted"])
        exp = []
        if what == "altered":
            ctx.blob(root + "/" + f, "other", ctx.size_of(root + "/" + f) if f != "data/0" else 0)
            exp = [("checksum", f)] if f != "data/0" else None
        elif what == "lost":
            ctx.remove(root + "/" + f)
            exp = [("missing", f)]
        else:
            for m in ("manifest-md5.txt", "manifest-sha256.txt", "tagmanifest-sha1.txt"):
                ctx.write(root + "/" + m, "".join([ln + "\n" for ln in lines_of(ctx, root + "/" + m) if not (ln.endswith(" " + f) or ln.endswith("  manifest-md5.txt") or ln.endswith("manifest-sha256.txt") and "data/" not in ln)]))
            exp = [("unexpected", f)] if f.startswith("data/") else None
        got = judge(ctx, pack(ctx, root, p["form"]))
        if what == "lost" and f.startswith("data/"):
            ctx.check(got is not None, "a lost payload file makes the bag invalid (%s)" % (f,))
        else:
            ctx.check(got == exp, "exactly the offending file is named (%s)" % (f,))
        if what != "altered":
            got = judge(ctx, root if p["form"] == "dir" else root + "." + p["form"], comp=True)
            ctx.check((got is None) == (exp is None), "the completeness form compares the names")
    elif case == "structure":
        form = ctx.choice("form", ["dir", "zip"])
        mkbag(ctx, root, [("data/a", "a", 1), ("x", "x", 1)], algs=("md5", "sha1"))
        ok = True
        if ctx.flag("no md5"):
            ctx.remove(root + "/manifest-md5.txt")
        if ctx.flag("no sha1"):
            ctx.remove(root + "/manifest-sha1.txt")
        if not ctx.exists(root + "/manifest-md5.txt") and not ctx.exists(root + "/manifest-sha1.txt"):
            ok = False
            ctx.cover("no manifest")
        d = ctx.choice("data", ["dir", "none", "file", "empty", "a is a directory"])
        if d == "none":
            ctx.rmtree(root + "/data")
            ctx.cover("no data directory")
        elif d == "file":
            ctx.rmtree(root + "/data")
            ctx.write(root + "/data", "x")
        elif d != "dir":
            ctx.remove(root + "/data/a")
            if d != "empty":
                ctx.mkdir(root + "/data/a")
        if d != "dir":
            ok = False
        tm = ctx.choice("tags", [None, "x", "data"])
        if tm:
            # a tag manifest is no substitute; a directory is not a file
            ctx.write(root + "/tagmanifest-md5.txt", "%s  %s\n" % (ctx.digest("md5", root + "/x"), tm))
            ok = ok and tm == "x"
        if ctx.flag("no info"):
            ctx.remove(root + "/bag-info.txt")
        ctx.check((judge(ctx, pack(ctx, root, form)) is None) == ok, "a bag needs a payload directory with the listed files and a payload manifest")
    elif case == "fetch":
        form = ctx.choice("form", ["dir", "zip"])
        mkbag(ctx, root, [("data/a", "a", 1), ("data/b", "b", 1)])
        lines = [("http://x/a 1 data/a", True), ("http://x/a - data/a", True), ("x/a 1 data/a", False), ("http:a 1 data/a", False), ("http://x/b 1 ../c", False),
                 ("http://x/b 1 /etc/b", False), ("http://x/b 1 data/../data/b", True), ("http://x/b 1 data/b c", True), ("", True), ("http://x/b 1 ~/b", False),
                 ("http://x/b", False), ("http://x/b 1", False)]
        ok = True
        text = ""
        ctx.cover("fetch list")
        for i in range(2):
            ln = lines[ctx.choice("l%d" % i, list(range(len(lines))))]
            text = text + ln[0] + "\n"
            ok = ok and ln[1]
        ctx.write(root + "/fetch.txt", text)
        ctx.check((judge(ctx, pack(ctx, root, form)) is None) == ok, "a fetch list with a malformed or unsafe entry makes the bag invalid")
    else:
        # how a manifest line is written does not matter
        form = ctx.choice("form", ["dir", "zip"])
        mkbag(ctx, root, [("data/a b", "a", 1), ("data/c", "c", 1)])
        h = ctx.digest("sha256", root + "/data/a b")
        g = ctx.digest("sha256", root + "/data/c")
        sep = ctx.choice("sep", [" ", "  ", "\t", " *"])
        pth = ctx.choice("path", ["data/a b", "./data/a b", "data//a b", "data/x/../a b"])
        up = ctx.flag("upper")
        extra = ctx.choice("extra", ["", "# comment\n", "\n\n", "dup", "conflict", "short\n"])
        ok = True
        text = (h.upper() if up else h) + sep + pth + "\n"
        if extra == "dup":
            text = text + text
        elif extra == "conflict":
            text = text + wrong("sha256") + "  data/a b\n"
        else:
            text = extra + text
        ctx.write(root + "/manifest-sha256.txt", text + g + "  data/c")
        path = pack(ctx, root, form)
        from multibag.access.bagit import BagError
        try:
            got = judge(ctx, path)
            ctx.check((got is None) == (extra != "conflict"), "an intact bag is valid however its manifest is written")
        except BagError:
            ctx.check(extra == "conflict", "a bag with a well-formed manifest can be opened")
