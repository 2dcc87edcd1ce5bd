"""Splitting and then restoring gives back the original bag."""
from harness.lib import mkbag, drain, lines_of
from harness.agg import is_std
from harness.rich import rich
from harness.C01 import mksplitter, LAYOUTS, ODD

COVERS = ["several bags", "one bag", "serialized", "empty dir", "two algorithms", "tag manifest", "special name", "in place", "serialized source",
          "head bag split", "deleted by the source"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names; 3-4 files (sizes of two symbolic, 0..9) in 3 layouts and symbolic limit 1..9, symbolic names of up to 2 characters, metadata with symbolic values of up to 2 characters, output bags as directories, zip and tar",
          "thorough": "4 files, three of symbolic size, names and values of up to 3 characters"}
OUTSIDE = "source bags with a fetch list, or with files in a directory called multibag that are not those of a head bag; more files"
BUDGET = {"quick": 150, "thorough": 1500}


def cases(tier):
    t = tier == "thorough"
    out = []
    for s in ("well", "neigh"):
        for l in range(3):
            out.append(("pack", {"n": 4 if t else 3, "sym": 3 if t else 2, "layout": l, "splitter": s, "form": ["dir", "zip", "tgz"][l]}))
    out.append(("place", {"form": "inplace"}))
    out.append(("place", {"form": "mixed"}))
    out.append(("odd", {}))
    out.append(("names", {"k": 3 if t else 2}))
    out.append(("dirs", {}))
    out += [("rich", {"form": f}) for f in ("dir", "zip", "tgz", "inplace")]
    out.append(("info", {"k": 3 if t else 2}))
    out.append(("headsrc", {}))
    return out


def roundtrip(ctx, plan, before, form, info=(), algs=("sha256",)):
    from multibag.restore import restore_bag
    from multibag.access.bagit import open_bag
    out = ctx.path("out")
    ctx.mkdir(out)
    dirs = drain(plan.apply_iter(out))
    ctx.cover("several bags" if len(dirs) > 1 else "one bag")
    head = dirs[-1]
    paths = list(dirs)
    for i, d in enumerate(dirs):
        kind = form
        if form == "mixed":
            kind = ["dir", "zip", "tgz"][(i + len(dirs)) % 3]
        if kind in ("zip", "tgz"):
            ctx.cover("serialized")
            ctx.archive(d + "." + kind, "zip" if kind == "zip" else "tar", d, d.split("/")[-1])
            ctx.rmtree(d)
            paths[i] = d + "." + kind
    # a destination that is called as the head bag
    ctx.mkdir(ctx.path("r"))
    dest = ctx.path("r", head.split("/")[-1])
    if form == "inplace":
        ctx.cover("in place")
        b = restore_bag(head)
        dest = head
    else:
        b = restore_bag(paths[-1], dest)
    after = ctx.snapshot(dest)
    for p in before:
        if is_std(p):
            continue
        ctx.check(p in after and after[p][0] == before[p][0], "%s is restored" % (p,))
        if before[p][0] == "f":
            ctx.check(after[p][1] == before[p][1], "%s is restored unchanged" % (p,))
    for p in after:
        ctx.check(is_std(p) or p in before, "nothing is added (%s)" % (p,))
    ctx.check(after["bagit.txt"][1] == before["bagit.txt"][1], "the declaration is the original's")
    for a in ("md5", "sha1", "sha256", "sha512"):
        m = "manifest-%s.txt" % a
        ctx.check((m in after) == (m in before), "there are the original's payload manifests (%s)" % a)
        if m in before:
            got = {}
            for ln in lines_of(ctx, dest + "/" + m):
                h, p = ln.split(None, 1)
                ctx.check(p not in got, "a file is listed once")
                got[p] = h
            n = 0
            for p in before:
                if p.startswith("data/") and before[p][0] == "f":
                    n = n + 1
                    ctx.check(p in got and got[p] == ctx.digest(a, dest + "/" + p), "%s is listed with its checksum" % (p,))
            ctx.check(len(got) == n, "nothing else is listed")
    exp = {}
    for k, v in info:
        exp[k] = exp.get(k, []) + [v]
    bag = open_bag(dest)
    for k in exp:
        v = bag.info.get(k)
        ctx.check((v if isinstance(v, list) else [v]) == exp[k], "metadata element %s is the original's" % k)
    for k in bag.info:
        ctx.check(k in exp or k in ("Payload-Oxum", "Bag-Size"), "no metadata element is added (%s)" % (k,))
    n, tot = 0, 0
    for p in before:
        if p.startswith("data/") and before[p][0] == "f":
            n, tot = n + 1, tot + ctx.size_of(dest + "/" + p)
    ctx.check(bag.info.get("Payload-Oxum") == "%s.%s" % (tot, n), "the payload totals are right")
    ok = True
    try:
        bag.validate()
    except Exception as ex:
        ctx.fail("the restored bag is valid: %s" % (ex,))
    return dest


def run(ctx, case, **p):
    from multibag import split
    src = ctx.path("src")
    if case == "pack":
        files = [(nm, "t%d" % i, ctx.int("s%d" % i, 0, 9) if i < p["sym"] else 4) for i, nm in enumerate(LAYOUTS[p["layout"]][:p["n"]])]
        mx = ctx.int("max", 1, 9)
        mkbag(ctx, src, files, info=[("X-A", "1")])
        before = ctx.snapshot(src)
        roundtrip(ctx, mksplitter(p["splitter"], mx).plan(src), before, p["form"], [("X-A", "1")])
    elif case == "place":
        # every assignment of the files to bags, with two algorithms and tag manifests
        files = [("data/a b", "t0", 3), ("data/x/c", "t1", 2), ("meta/d", "t2", 1), ("about.txt", "t3", 0)]
        algs = ctx.choice("algs", [("sha256",), ("sha256", "md5"), ("sha512",)])
        tm = ctx.choice("tm", [(), ("sha256",), ("md5", "sha1")])
        if len(algs) > 1:
            ctx.cover("two algorithms")
        if tm:
            ctx.cover("tag manifest")
        mkbag(ctx, src, files, algs, [("X-A", "1")], tm)
        before = ctx.snapshot(src)
        plan = split.SplitPlan(src)
        m = [[], [], []]
        for i, f in enumerate(files):
            m[ctx.choice("b%d" % i, [0, 1, 2])].append(f[0])
        for k in range(3):
            plan._manifests.append({"contents": m[k], "name": "m%d" % k, "totalsize": 0})
        roundtrip(ctx, plan, before, p["form"], [("X-A", "1")], algs)
    elif case == "odd":
        odd = ctx.choice("odd", [o for o in ODD])
        form = ctx.choice("form", ["dir", "zip", "tgz"])
        ctx.cover("special name")
        mkbag(ctx, src, [("data/a", "t0", 3), (odd, "t1", 4)])
        before = ctx.snapshot(src)
        path = src
        sform = ctx.choice("source", ["dir", "zip", "tgz"])
        if sform != "dir":
            ctx.cover("serialized source")
            path = ctx.path("src." + sform)
            ctx.archive(path, "zip" if sform == "zip" else "tar", src, "src")
            ctx.rmtree(src)
        plan = split.SplitPlan(path)
        if ctx.flag("apart"):
            plan._manifests.append({"contents": ["data/a"], "name": "m0", "totalsize": 3})
        plan.complete_plan()
        roundtrip(ctx, plan, before, form)
    elif case == "names":
        a = "-" + ctx.text("a", 0, p["k"], "a. #") + "x"
        b = "-" + ctx.text("b", 0, p["k"], "a. #") + "x"
        ctx.assume(a != b)
        d = ctx.choice("d", ["data/", "data/x/", "", "meta/"])
        files = [(d + a, "t0", 2), ("data/" + b, "t1", 3)]
        mkbag(ctx, src, files)
        before = ctx.snapshot(src)
        mx = ctx.choice("max", [2, 9])
        roundtrip(ctx, mksplitter(ctx.choice("sp", ["well", "neigh"]), mx).plan(src), before, "dir")
    elif case == "rich":
        files = rich()
        info = [("X-A", "1"), ("X-A", "2"), ("Internal-Sender-Description", "d"), ("External-Identifier", "e")]
        algs, tm = ctx.choice("algs", [(("sha256",), ()), (("md5", "sha512"), ("sha1",))])
        mkbag(ctx, src, files, algs, info, tm)
        before = ctx.snapshot(src)
        how = ctx.choice("how", ["well", "neigh", 2, 5])
        if how in ("well", "neigh"):
            plan = mksplitter(how, 40).plan(src)
        else:
            plan = split.SplitPlan(src)
            for i in range(how):
                plan._manifests.append({"contents": [f[0].rstrip("/") for f in files[i::how]], "name": "m%d" % i, "totalsize": 0})
        roundtrip(ctx, plan, before, p["form"], info, algs)
    elif case == "headsrc":
        # splitting the head bag of an aggregation: the aggregation with the split bags is the aggregation with the original
        from multibag.restore import restore_bag
        ctx.cover("head bag split")
        out = ctx.path("out")
        ctx.mkdir(out)
        sp = ctx.choice("sp", ["well", "neigh"])
        td = "mbt" if sp == "neigh" and ctx.flag("mbt") else "multibag"
        names = ["data/a", "data/d/b", "meta/c"]
        have = dict([(m, [f for f in names if f == "meta/c" or ctx.flag(m + f)]) for m in ("m1", "h")])
        gone = [f for f in names[:2] if ctx.flag("gone" + f)]
        if gone:
            ctx.cover("deleted by the source")
        mkbag(ctx, out + "/m1", [(f, "m1" + f, 3) for f in have["m1"]] + [("data/m1", "m1", 1)])
        look = {"data/m1": "m1", "data/h": "h"}
        for m in ("m1", "h"):
            for f in have[m]:
                look[f] = m
        files = [(f, "h" + f, 3) for f in have["h"]] + [("data/h", "h", 1)]
        files += [(td + "/member-bags.tsv", "m1\nh\n"), (td + "/file-lookup.tsv", "".join(["%s\t%s\n" % x for x in look.items()]))]
        if gone:
            files.append((td + "/deleted.txt", "".join([f + "\n" for f in gone])))
        mkbag(ctx, out + "/h", files, info=[("X-A", "1"), ("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.5"), ("Multibag-Tag-Directory", td)], tagman=("sha256",))
        restore_bag(out + "/h", ctx.path("r1"))
        dirs = drain(mksplitter(sp, ctx.choice("max", [3, 40])).plan(out + "/h").apply_iter(out))
        restore_bag(dirs[-1], ctx.path("r2"))
        one, two = ctx.snapshot(ctx.path("r1")), ctx.snapshot(ctx.path("r2"))
        for f in one:
            ctx.check(f in two and two[f][0] == one[f][0], "%s is restored" % (f,))
            if one[f][0] == "f" and not is_std(f):
                ctx.check(one[f][1] == two[f][1], "%s is restored unchanged" % (f,))
        for f in two:
            # the head bag split is an earlier member now: its tag directory is like any other
            ctx.check(f in one or (td == "mbt" and (f + "/").startswith("mbt/")), "nothing is added (%s)" % (f,))
        for mf in ("manifest-sha256.txt", "bag-info.txt")[:1 if td == "mbt" else 2]:
            ctx.check(sorted(lines_of(ctx, ctx.path("r1", mf))) == sorted(lines_of(ctx, ctx.path("r2", mf))), "%s is the same" % mf)
    elif case == "dirs":
        files = [("data/a", "t0", 3), ("data/x/b", "t1", 2)]
        for i, d in enumerate(["data/e/", "data/x/e/", "meta/m/e/", "top/"]):
            if ctx.flag("d%d" % i):
                files.append((d,))
                ctx.cover("empty dir")
        mkbag(ctx, src, files)
        before = ctx.snapshot(src)
        mx = ctx.choice("max", [2, 9])
        form = ctx.choice("form", ["dir", "zip", "tgz"])
        roundtrip(ctx, mksplitter(ctx.choice("sp", ["well", "neigh"]), mx).plan(src), before, form)
    else:
        v = ctx.text("v", 1, p["k"], "a:# ")
        ctx.assume(v == v.strip() and v != "")
        w = ctx.text("w", 1, 1, "ab")
        name = ctx.choice("name", ["X-Note", "External-Identifier", "Internal-Sender-Identifier", "Internal-Sender-Description",
                                   "Bag-Group-Identifier", "Bag-Count", "Contact-Name", "Bagging-Date", "Bag-Software-Agent", "Multibagger", "X-Multibag-Y"])
        info = [(name, v), ("Source-Organization", w)]
        if ctx.flag("rep"):
            info.append((name, w))
        mkbag(ctx, src, [("data/a", "t0", 3), ("data/b", "t1", 2)], info=info)
        before = ctx.snapshot(src)
        roundtrip(ctx, mksplitter("well", ctx.choice("max", [3, 9])).plan(src), before, "dir", info)
