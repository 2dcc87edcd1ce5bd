"""Writable, read-only and serialized views of a bag agree."""
from harness.lib import mkbag, drain
from harness.rich import rich

COVERS = ["writable", "read-only", "zip", "tar", "empty directory", "fetch list", "head bag", "tag manifest", "nested start", "absent path", "byte order mark", "line ends"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names as directory, zip, tar and three compressed forms, probed at any of its paths; 6 variations of how manifests, metadata and fetch list are written; archives renamed; bags within bags; a bag with up to 4 payload and 3 tag files of any size up to 10^6, empty directories, two manifests, a fetch list and multibag tag files, each present or not; probed at paths of up to 3 characters below data; file text of up to 4 characters",
          "thorough": "paths and text of up to 5 characters"}
OUTSIDE = "blank lines in the fetch list and line-separator characters in manifest paths (the bagit library's own reader of writable bags stumbles over both); time stamps; sizes of directories; archives without directory entries"
BUDGET = {"quick": 150, "thorough": 1500}


def cases(tier):
    t = tier == "thorough"
    return [("tree", {}), ("probe", {"k": 4 if t else 3}), ("text", {"k": 5 if t else 4}), ("meta", {}), ("head", {}), ("start", {}), ("names", {"k": 3 if t else 2})] + [("rich", {"form": f}) for f in ("writable", "read-only", ".zip", ".tar", ".tgz", ".tar.gz", ".tar.bz2")] + [("manifest", {}), ("rename", {}), ("nested", {})]


def views(ctx, root, name="b"):
    from multibag.access.bagit import Bag, ReadOnlyBag, open_bag
    from multibag.access.extended import as_extended, ExtendedReadWritableBag, ExtendedReadOnlyBag
    ctx.mkdir(ctx.path("z"))
    ctx.archive(ctx.path("z") + "/" + name + ".zip", "zip", root, name)
    ctx.archive(ctx.path("z") + "/" + name + ".tar", "tar", root, name)
    for k in ("writable", "read-only", "zip", "tar"):
        ctx.cover(k)
    return [("writable", ExtendedReadWritableBag(root)), ("extended", as_extended(Bag(root))), ("read-only", as_extended(open_bag(root))),
            ("read-only class", ExtendedReadOnlyBag(root)), ("plain read-only", open_bag(root)),
            ("zip", as_extended(open_bag(ctx.path("z") + "/" + name + ".zip"))), ("tar", as_extended(open_bag(ctx.path("z") + "/" + name + ".tar")))]


def walked(bag, start=None):
    out = []
    for d, ds, fs in drain(bag.walk(start), 300):
        for x in ds:
            out.append(("d", d + "/" + x if d else x))
        for x in fs:
            out.append(("f", d + "/" + x if d else x))
    return sorted(out)


def all_same(ctx, vs, fn, what, skip=()):
    """fn(bag) gives the same for all views; an exception is a value too"""
    ref = None
    first = True
    for n, b in vs:
        if n in skip:
            continue
        got = fn(b)
        if first:
            ref, first = got, False
        else:
            ctx.check(got == ref, "%s: the %s view agrees with the writable one" % (what, n))
    return ref


def run(ctx, case, **p):
    root = ctx.path("b", "b")
    if case in ("tree", "start"):
        files = [("data/a", "a", ctx.int("s", 0, 10 ** 6))]
        exp = [("f", "data/a")]
        for f, sub in (("data/d/b c", ["data/d"]), ("meta/t", ["meta"]), ("u", [])):
            if ctx.flag(f):
                files.append((f, f, len(f)))
                exp.append(("f", f))
                exp = exp + [("d", x) for x in sub]
        for d, sub in (("data/e/", []), ("data/d/x/", ["data/d"]), ("multibag/", [])):
            if ctx.flag(d):
                ctx.cover("empty directory")
                files.append((d,))
                exp.append(("d", d[:-1]))
                for x in sub:
                    if ("d", x) not in exp:
                        exp.append(("d", x))
        mkbag(ctx, root, files)
        exp = sorted(exp + [("d", "data"), ("f", "bagit.txt"), ("f", "bag-info.txt"), ("f", "manifest-sha256.txt")])
        vs = views(ctx, root)
        if case == "start":
            # walking from a subdirectory gives the part of the whole walk below it
            for st in ("data", "data/", "data/d", "data//d", "data/d/", "meta", "nope", "data/a"):
                pre = st.replace("//", "/").rstrip("/") + "/"
                part = [x for x in exp if x[1].startswith(pre)]
                isd = ("d", pre[:-1]) in exp
                for n, b in vs:
                    if n == "plain read-only":
                        continue
                    ctx.cover("nested start")
                    if isd:
                        ctx.check(walked(b, st) == part, "%s: walking from %s gives what is below it" % (n, st))
                    else:
                        try:
                            got = walked(b, st)
                            ctx.fail("%s: walking from %s, which is not a directory, fails" % (n, st))
                        except Exception:
                            pass
            return
        for n, b in vs:
            if n != "plain read-only":
                ctx.check(walked(b) == exp, "%s: walking gives every file and directory, once" % (n,))
            for k, path in exp:
                ctx.check(b.exists(path) and b.isfile(path) == (k == "f") and b.isdir(path) == (k == "d"), "%s: what exists is reported as what it is (%s)" % (n, path))
                if k == "f" and n != "plain read-only":
                    ctx.check(b.sizeof(path) == ctx.size_of(root + "/" + path), "%s: the size is that of the file (%s)" % (n, path))
        ns = sorted([x[1] for x in exp if x[0] == "f" and x[1] not in ("bagit.txt", "bag-info.txt", "manifest-sha256.txt")] +
                    [x[1] for x in exp if x[0] == "d" and not [y for y in exp if y[1].startswith(x[1] + "/")]])
        for n, b in vs:
            if n != "plain read-only":
                ctx.check(sorted(drain(b.nonstandard())) == ns, "%s: the non-standard content" % (n,))
        all_same(ctx, vs, lambda b: sorted(drain(b.payload_files())), "payload files")
        oxum = all_same(ctx, vs, lambda b: b.has_oxum(), "totals recorded")
        for n, b in vs:
            if hasattr(b, "calc_oxum"):
                tot = 0
                for x in exp:
                    if x[0] == "f" and x[1].startswith("data/"):
                        tot = tot + ctx.size_of(root + "/" + x[1])
                ctx.check(b.calc_oxum() == (tot, len([x for x in exp if x[0] == "f" and x[1].startswith("data/")])), "%s: the payload total" % (n,))
    elif case == "rich":
        mkbag(ctx, root, rich(), ("sha256", "md5"), [("Source-Organization", "x")], ("sha1",))
        snap = ctx.snapshot(root)
        exp = sorted([(v[0], k) for k, v in snap.items()])
        from multibag.access.bagit import open_bag, Bag
        from multibag.access.extended import as_extended, ExtendedReadWritableBag
        if p["form"] == "writable":
            b = ExtendedReadWritableBag(root)
        elif p["form"] == "read-only":
            b = as_extended(open_bag(root))
        else:
            ctx.mkdir(ctx.path("z"))
            ctx.archive(ctx.path("z") + "/b" + p["form"], "zip" if p["form"] == ".zip" else "tar", root, "b")
            b = as_extended(open_bag(ctx.path("z") + "/b" + p["form"]))
        n = p["form"]
        ctx.check(b.name == "b", "%s: the name" % (n,))
        ctx.check(walked(b) == exp, "%s: walking gives every file and directory, once" % (n,))
        seen = []
        for d, ds, fs in drain(b.walk(), 300):
            ctx.check(d == "" or d in seen, "%s: directories are walked from the top" % (n,))
            seen = seen + [(d + "/" if d else "") + x for x in ds]
        std = [k for k in snap if k in ("bagit.txt", "bag-info.txt", "manifest-sha256.txt", "manifest-md5.txt", "tagmanifest-sha1.txt")]
        empty = [k for k in snap if snap[k][0] == "d" and not [x for x in snap if x.startswith(k + "/")]]
        ns = sorted([k for k in snap if snap[k][0] == "f" and k not in std] + empty)
        ctx.check(sorted(drain(b.nonstandard(), 300)) == ns, "%s: the non-standard content" % (n,))
        pay = sorted([k for k in snap if snap[k][0] == "f" and k.startswith("data/")])
        ctx.check(sorted(drain(b.payload_files(), 300)) == pay, "%s: the payload files" % (n,))
        ctx.check(sorted(b.payload_entries().keys()) == pay, "%s: the payload entries" % (n,))
        ctx.check(sorted(b.tagfile_entries().keys()) == sorted([k for k in snap if snap[k][0] == "f" and not k.startswith("data/") and k != "tagmanifest-sha1.txt"]), "%s: the tag file entries" % (n,))
        if hasattr(b, "calc_oxum"):
            ctx.check(b.calc_oxum() == (sum([ctx.size_of(root + "/" + k) for k in pay]), len(pay)), "%s: the payload total" % (n,))
        if p["form"] not in ("writable", "read-only", ".zip", ".tar"):
            return
        # any one of them
        names = sorted(snap.keys()) + ["data/nope", "nope", "data/a/x", "DATA/a", "data/E", "data/.e/x"]
        q = names[ctx.choice("path", list(range(len(names))))]
        ctx.check(b.exists(q) == (q in snap), "%s: exists (%s)" % (n, q))
        ctx.check(b.isfile(q) == (q in snap and snap[q][0] == "f"), "%s: isfile (%s)" % (n, q))
        ctx.check(b.isdir(q) == (q in snap and snap[q][0] == "d"), "%s: isdir (%s)" % (n, q))
        if q in snap and snap[q][0] == "f":
            ctx.check(b.sizeof(q) == ctx.size_of(root + "/" + q), "%s: the size is that of the file (%s)" % (n, q))
        elif q in snap:
            ctx.check(walked(b, q) == [x for x in exp if x[1].startswith(q + "/")], "%s: walking from %s gives what is below it" % (n, q))
        ctx.check(b.is_valid(), "%s: validity" % (n,))
    elif case == "manifest":
        # a byte order mark, line ends and separators in the files the views read themselves
        mkbag(ctx, root, [("data/a", "a", 1), ("data/d/b", "b", 2), ("meta/t", "t", 2)], ("sha256",), [("Source-Organization", "x y"), ("External-Identifier", "q:r")], ("md5",))
        f = ctx.choice("file", ["manifest-sha256.txt", "tagmanifest-md5.txt", "bag-info.txt", "fetch.txt"])
        if f == "fetch.txt":
            ctx.write(root + "/" + f, "http://x.org/a 5 data/q w\nhttp://x.org/b - data/r\n")
        t = ctx.text_of(root + "/" + f)
        how = ctx.choice("how", ["bom", "crlf", "no last", "blank end", "lead blank", "indent"])
        if how == "bom":
            ctx.cover("byte order mark")
            t = "\ufeff" + t
        elif how == "crlf":
            ctx.cover("line ends")
            t = t.replace("\n", "\r\n")
        elif how == "no last":
            t = t[:-1]
        elif f == "fetch.txt":
            ctx.stop()
        elif how == "blank end":
            t = t + "\n"
        elif how == "lead blank":
            if f == "bag-info.txt":
                ctx.stop()
            t = "\n" + t
        elif f == "bag-info.txt":
            t = t.replace("x y\n", "x\n  y\n")
        else:
            ctx.stop()
        ctx.write(root + "/" + f, t)
        vs = views(ctx, root)
        all_same(ctx, vs, lambda b: sorted([(k, str(v)) for k, v in b.info.items()]), "metadata")
        all_same(ctx, vs, lambda b: sorted([(k, sorted(v.items())) for k, v in b.entries.items()]), "manifest entries")
        all_same(ctx, vs, lambda b: list(b.fetch_entries()), "fetch entries")
        all_same(ctx, vs, lambda b: b.is_valid(), "validity")
    elif case == "rename":
        # the name of a bag is that of its root directory, whatever the archive is called
        ctx.mkdir(ctx.path("z"))
        inner = ctx.choice("inner", ["b", "B", "b.c", "b.zip", "b c", ".b", "s/b", "s t/u/b"])
        arc = ctx.choice("arc", ["b", "x.y", "B", "b.zip"])
        ext = ctx.choice("ext", [".zip", ".tar", ".tgz", ".tar.gz"])
        mkbag(ctx, root, [("data/a", "a", 1)])
        ctx.archive(ctx.path("z") + "/" + arc + ext, "zip" if ext == ".zip" else "tar", root, inner)
        from multibag.access.bagit import open_bag
        from multibag.access.extended import as_extended
        b = as_extended(open_bag(ctx.path("z") + "/" + arc + ext))
        ctx.check(b.name == inner.split("/")[-1], "the name is that of the directory inside")
        ctx.check(b.isfile("data/a") and b.sizeof("data/a") == 1 and not b.exists(inner) and b.is_valid(), "the bag is the directory inside")
    elif case == "nested":
        # a bag inside a bag is just content
        sub = ctx.choice("sub", ["data", "data/a/b", "meta", "A"])
        files = [("data/x", "x", 1)] + [(sub + "/" + f, f, 2) for f in ("bag-info.txt", "data/y", "manifest-sha256.txt", "fetch.txt", "multibag/member-bags.tsv")] + [(sub + "/bagit.txt", "BagIt-Version: 0.96\nTag-File-Character-Encoding: UTF-8\n")]
        mkbag(ctx, root, files)
        vs = views(ctx, root)
        for n, b in vs:
            ctx.check(b.version == "0.97" and b.isfile("data/x") and b.isfile(sub + "/data/y"), "%s: a bag inside the bag is content" % (n,))
            ctx.check(b.is_valid(), "%s: validity" % (n,))
            ctx.check(b.is_head_multibag() == False and list(b.fetch_entries()) == [], "%s: nothing is taken from the bag inside" % (n,))
            if n != "plain read-only":
                ctx.check(b.name == "b", "%s: the name" % (n,))
                ctx.check(len([x for x in drain(b.nonstandard(), 300)]) == len(files), "%s: the non-standard content" % (n,))
    elif case == "probe":
        mkbag(ctx, root, [("data/u/a", "a", 1), ("data/a", "b", 2), ("data/u.a", "c", 3)])
        q = "data" + ctx.text("q", 0, p["k"], "/ua.")
        # where the path leads, by the text alone
        segs = []
        for x in q.split("/"):
            if x == "..":
                if not segs:
                    ctx.stop()
                segs.pop()
            elif x != "" and x != ".":
                segs.append(x)
        t = "/".join(segs)
        vs = views(ctx, root)
        isf = t in ("data/u/a", "data/a", "data/u.a", "bagit.txt")
        isd = t in ("", "data", "data/u")
        if not isf and not isd:
            ctx.cover("absent path")
        for n, b in vs:
            ctx.check(b.exists(q) == (isf or isd), "%s: exists" % (n,))
            ctx.check(b.isfile(q) == isf, "%s: isfile" % (n,))
            ctx.check(b.isdir(q) == isd, "%s: isdir" % (n,))
            if n != "plain read-only" and not isd:
                try:
                    got = b.sizeof(q)
                    ctx.check(isf, "%s: the size of an absent file is not reported" % (n,))
                    ctx.check(got == {"data/u/a": 1, "data/a": 2, "data/u.a": 3}[t], "%s: the size is that of the file" % (n,))
                except OSError:
                    ctx.check(not isf, "%s: the size of a file is reported" % (n,))
    elif case == "text":
        t = ctx.text("t", 0, p["k"], "a\n\r\u2028 ")
        bom = ctx.flag("bom")
        if bom:
            ctx.cover("byte order mark")
        ctx.cover("line ends")
        mkbag(ctx, root, [("data/a", "a", 1), ("meta/t.txt", ("\ufeff" if bom else "") + t)])
        lines = all_same(ctx, views(ctx, root), lambda b: read_lines(b, "meta/t.txt"), "lines of a text file")
        for n, b in views(ctx, root):
            with b.open_text_file("meta/t.txt") as fd:
                ctx.check(fd.read() == t, "%s: the text is that of the file" % (n,))
    elif case == "meta":
        info = []
        for k, v in (("Source-Organization", "x y"), ("Empty", ""), ("Twice", "1"), ("Twice", "2"), ("Colon", "a: b")):
            if k == "Twice" or ctx.flag(k):
                info.append((k, v))
        algs = ctx.choice("algs", [("sha256",), ("md5", "sha512"), ("sha1",)])
        tm = ctx.choice("tagman", [(), ("md5",), ("sha256", "md5")])
        if tm:
            ctx.cover("tag manifest")
        mkbag(ctx, root, [("data/a b", "a", ctx.int("s", 0, 1000)), ("data/d/c", "c", 2), ("meta/t", "t", 2)], algs, info, tm)
        if ctx.flag("fetch"):
            ctx.cover("fetch list")
            ctx.write(root + "/fetch.txt", "http://x.org/a 5 data/q w\nhttp://x.org/b - data/r\nhttp://x.org/c 0 data/s/../t//u\n")
        vs = views(ctx, root)
        all_same(ctx, vs, lambda b: sorted([(k, str(v)) for k, v in b.info.items()]), "metadata")
        all_same(ctx, vs, lambda b: list(b.info.keys()), "order of the metadata")
        all_same(ctx, vs, lambda b: sorted([(k, sorted(v.items())) for k, v in b.entries.items()]), "manifest entries")
        all_same(ctx, vs, lambda b: sorted([(k, sorted(v.items())) for k, v in b.payload_entries().items()]), "payload manifest entries")
        all_same(ctx, vs, lambda b: sorted([(k, sorted(v.items())) for k, v in b.tagfile_entries().items()]), "tag manifest entries")
        all_same(ctx, vs, lambda b: sorted([x.split("/")[-1] for x in b.manifest_files()]), "manifest files")
        all_same(ctx, vs, lambda b: sorted([x.split("/")[-1] for x in b.tagmanifest_files()]), "tag manifest files")
        got = all_same(ctx, vs, lambda b: list(b.fetch_entries()), "fetch entries")
        exp = [("http://x.org/a", "5", "data/q w"), ("http://x.org/b", "-", "data/r"), ("http://x.org/c", "0", "data/s/../t//u")] if ctx.exists(root + "/fetch.txt") else []
        ctx.check(got == exp, "the fetch entries are those of the fetch list")
        all_same(ctx, vs, lambda b: list(b.files_to_be_fetched()), "files to be fetched")
        all_same(ctx, vs, lambda b: b.version, "version")
        all_same(ctx, vs, lambda b: sorted(set(b.algorithms)), "algorithms")
        all_same(ctx, vs, lambda b: b.encoding, "encoding")
        all_same(ctx, vs, lambda b: b.is_head_multibag(), "being a head bag", skip=())
        all_same(ctx, vs, lambda b: b.name, "name", skip=("plain read-only",))
        all_same(ctx, vs, lambda b: b.is_valid(), "validity")
    elif case == "names":
        # the writable view of a name is that of the serialized ones
        n1 = "n" + ctx.text("n1", 0, p["k"], "a .#%")
        ctx.assume(not n1.endswith(" "))
        mkbag(ctx, root, [("data/" + n1, "a", 1), ("data/" + n1 + "d/x", "b", 2), (n1 + "t", "c", 3)])
        vs = views(ctx, root)
        exp = sorted([("d", "data"), ("f", "bagit.txt"), ("f", "bag-info.txt"), ("f", "manifest-sha256.txt"), ("f", "data/" + n1), ("d", "data/" + n1 + "d"), ("f", "data/" + n1 + "d/x"),
                      ("f", n1 + "t")])
        for n, b in vs:
            if n != "plain read-only":
                ctx.check(walked(b) == exp, "%s: walking gives every file and directory, once" % (n,))
            ctx.check(b.isfile("data/" + n1) and b.isdir("data/" + n1 + "d"), "%s: names are found" % (n,))
        all_same(ctx, vs, lambda b: sorted([(k, sorted(v.items())) for k, v in b.entries.items()]), "manifest entries")
        all_same(ctx, vs, lambda b: b.is_valid(), "validity")
    else:
        from multibag.access.multibag import open_headbag, as_headbag, is_headbag, HeadBag, ReadOnlyHeadBag
        from multibag.access.bagit import Bag, open_bag
        tagdir = ctx.choice("tagdir", [None, "multibag", "mb/x"])
        td = tagdir or "multibag"
        info = [("Multibag-Version", ctx.choice("ver", ["0.4", "0.3"]))] if ctx.flag("version") else []
        hv = ctx.flag("head version")
        if hv:
            hvv = ctx.choice("head version is", ["2", "1.0 b", ""])
            info.append(("Multibag-Head-Version", hvv))
        if tagdir:
            info.append(("Multibag-Tag-Directory", tagdir))
        ctx.cover("head bag")
        mkbag(ctx, root, [("data/a", "a", 1), (td + "/member-bags.tsv", "m 1\thttp://x.org/m\tx\t# c\n\nb\n"), (td + "/file-lookup.tsv", "data/a\tb\ndata/q w\tm 1\n"), (td + "/deleted.txt", "data/z\n\n data/y \n")], info=info)
        views(ctx, root)
        hs = [("writable", open_headbag(root)), ("class", HeadBag(root)), ("as", as_headbag(Bag(root))), ("as, no updates", as_headbag(Bag(root), True)),
              ("read-only", open_headbag(root, True)), ("read-only class", ReadOnlyHeadBag(root)), ("as read-only", as_headbag(open_bag(root))), ("zip", open_headbag(ctx.path("z") + "/b.zip")), ("tar", open_headbag(ctx.path("z") + "/b.tar"))]
        for f in (root, ctx.path("z") + "/b.zip", ctx.path("z") + "/b.tar"):
            ctx.check(is_headbag(f) == hv, "a bag is a head bag if it has a head version")
        mem = [("m 1", "http://x.org/m", "c", ["x"]), ("b", None, None, [])]
        for n, b in views(ctx, root):
            ctx.check(b.is_head_multibag() == hv, "%s: a bag is a head bag if it has a head version" % (n,))
        for n, b in hs:
            ctx.check([(m.name, m.uri, m.comment, m.info) for m in b.member_bags()] == mem, "%s: the member bags" % (n,))
            ctx.check(b.member_bag_names == ["m 1", "b"], "%s: the member bag names" % (n,))
            ctx.check(list(b.iter_file_lookup()) == [("data/a", "b"), ("data/q w", "m 1")], "%s: the file lookup" % (n,))
            ctx.check(b.lookup_file("data/a") == "b" and b.lookup_file("data/q w") == "m 1" and b.lookup_file("data/n") is None, "%s: looking up files" % (n,))
            ctx.check(b.files_in_member("b") == ["data/a"] and b.files_in_member("c") == [], "%s: files of a member" % (n,))
            ctx.check(sorted(b.deleted_paths()) == ["data/y", "data/z"], "%s: the deleted paths" % (n,))
            ctx.check(b.multibag_tag_dir == td, "%s: the tag directory" % (n,))
            if hv:
                ctx.check(b.head_version == hvv, "%s: the head version" % (n,))
            ctx.check(b.profile_version == (info[0][1] if info and info[0][0] == "Multibag-Version" else "0.4"), "%s: the profile version" % (n,))
            ctx.check(b.is_head_multibag() == hv, "%s: being a head bag" % (n,))


def read_lines(b, path):
    with b.open_text_file(path) as fd:
        return [ln for ln in fd]
