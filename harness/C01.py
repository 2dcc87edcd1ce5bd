"""Splitting conserves every file and empty directory, exactly once, byte for byte."""
from harness.lib import mkbag, drain, same_tree
from harness.rich import rich

COVERS = ["several bags", "one bag", "zero size", "oversize", "reserved", "empty dir", "serialized", "special name"]
BOUNDS = {
    "quick": "a fixed tree of 66 files and 7 empty directories with unusual names, any one of them planned by hand or any limit 5..16; up to 4 files in 3 directories with symbolic sizes 0..9 and limit 1..9, symbolic names of up to 3 characters",
    "thorough": "up to 5 files, longer names",
}
OUTSIDE = "bags with a fetch list; symbolic links; more files than stated"
BUDGET = {"quick": 150, "thorough": 1500}

LAYOUTS = [
    ["data/a", "data/b", "data/c", "data/d", "data/e"],
    ["data/x/a", "data/b", "data/x/c", "data/y/d", "meta/e"],
    ["data/x/y/a", "meta/b", "data/x/c", "data/d", "data/x/y/e"],
]
ODD = ["data/bagit.txt", "data/bag-info.txt", "data/fetch.txt", "data/manifest-md5.txt", "data/x/tagmanifest-sha256.txt",
       "meta/bagit.txt", "meta/fetch.txt", "meta/manifest-sha256.txt", "bagitxtxt", "bag-info_txt", "manifest-md5xtxt",
       "tagmanifest", "manifest-sha256.txt.bak", "xbagit.txt", "fetch.txt.old", "data/data/a", "datum/a", "about.txt"]


def cases(tier):
    t = tier == "thorough"
    n = 5 if t else 4
    out = []
    for s in ("well", "neigh"):
        for l in range(3):
            out.append(("pack", {"n": n, "layout": l, "splitter": s}))
    out.append(("reserved", {"n": 3, "splitter": "well"}))
    out.append(("reserved", {"n": 3, "splitter": "neigh"}))
    for form in ("dir", "rw", "zip", "tgz"):
        out.append(("odd", {"form": form}))
    out.append(("names", {"k": 3 if t else 2}))
    out.append(("dirs", {}))
    out.append(("handplan", {}))
    for form in ("dir", "zip", "tgz"):
        out.append(("rich", {"form": form}))
    return out


def split_and_check(ctx, src, files, plan):
    out = ctx.path("out")
    ctx.mkdir(out)
    before = ctx.snapshot(src) if ctx.isdir(src) else None
    mans = drain(plan.manifests())
    dirs = drain(plan.apply_iter(out))
    ctx.check(len(dirs) == len(mans), "one output bag per manifest")
    ctx.cover("several bags" if len(dirs) > 1 else "one bag")
    for f in files:
        where = [d for d in dirs if ctx.exists(d + "/" + f[0])]
        if f[0].endswith("/"):
            ctx.cover("empty dir")
            ctx.check(len(where) == 1 and ctx.isdir(where[0] + "/" + f[0]), "empty directory kept in exactly one bag")
            continue
        ctx.check(len(where) > 0, "file %s is in some output bag" % (f[0],))
        ctx.check(len(where) < 2, "file %s is in only one output bag" % (f[0],))
        ctx.check(ctx.isfile(where[0] + "/" + f[0]), "file %s stays a file" % (f[0],))
        if before is not None:
            ctx.check(ctx.content(where[0] + "/" + f[0]) == before[f[0]][1], "file %s unaltered" % (f[0],))
        else:
            ctx.blob(ctx.path("cmp", "f"), f[1], f[2])
            ctx.check(ctx.content(where[0] + "/" + f[0]) == ctx.content(ctx.path("cmp", "f")), "file unaltered")
            ctx.remove(ctx.path("cmp", "f"))
    names = [f[0] for f in files]
    for d in dirs:
        snap = ctx.snapshot(d)
        for p in snap:
            if p.startswith("data/") and snap[p][0] == "f":
                ctx.check(p in names, "no payload file that the source lacks")
    for d in drain_dirs(ctx, out):
        ctx.check(d in [x.split("/")[-1] for x in dirs], "only the reported bags are written")
    if before is not None:
        same_tree(ctx, before, ctx.snapshot(src), "source bag")


def drain_dirs(ctx, out):
    return [p for p in ctx.snapshot(out) if "/" not in p]


def mksplitter(kind, mx, tgt=None, forhead=None):
    from multibag import split
    cls = split.WellPackedSplitter if kind == "well" else split.NeighborlySplitter
    return cls(mx, tgt, forhead)


def run(ctx, case, **p):
    from multibag import split
    src = ctx.path("src")
    if case == "pack":
        names = LAYOUTS[p["layout"]][:p["n"]]
        files = [(nm, "t%d" % i, ctx.int("s%d" % i, 0, 9)) for i, nm in enumerate(names)]
        mx = ctx.int("max", 1, 9)
        mkbag(ctx, src, files)
        plan = mksplitter(p["splitter"], mx).plan(src)
        if files[0][2] == 0:
            ctx.cover("zero size")
        if files[0][2] > mx:
            ctx.cover("oversize")
        ctx.check(plan.is_complete(), "the plan of a splitter is complete")
        split_and_check(ctx, src, files, plan)
    elif case == "reserved":
        names = ["data/a", "data/x/b", "meta/c"][:p["n"]]
        files = [(nm, "t%d" % i, ctx.int("s%d" % i, 0, 9)) for i, nm in enumerate(names)]
        mx = ctx.int("max", 1, 9)
        mkbag(ctx, src, files)
        res = []
        for i, nm in enumerate(names):
            k = ctx.choice("r%d" % i, ["", "/", "no"])
            if k != "no":
                res.append(k + nm)
        if ctx.flag("bogus"):
            res.append("data/nonexistent")
        if res:
            ctx.cover("reserved")
        plan = mksplitter(p["splitter"], mx, None, res).plan(src)
        split_and_check(ctx, src, files, plan)
    elif case == "odd":
        odd = ctx.choice("odd", ODD)
        ctx.cover("special name")
        files = [("data/a", "t0", ctx.int("s0", 0, 5)), (odd, "t1", ctx.int("s1", 0, 5)), ("data/e/", )]
        # the splitters take bag directories; a plan also takes serialized bags
        how = ctx.choice("how", ["complete"] if p["form"] in ("zip", "tgz") else ["well", "neigh", "complete", "forhead"])
        mx = ctx.int("max", 1, 6)
        mkbag(ctx, src, files)
        path = src
        if p["form"] in ("zip", "tgz"):
            path = ctx.path("src." + p["form"])
            ctx.archive(path, "zip" if p["form"] == "zip" else "tar", src, "src")
            ctx.rmtree(src)
            ctx.cover("serialized")
        if how == "complete":
            if p["form"] == "dir":
                from multibag.access.bagit import ReadOnlyBag
                plan = split.SplitPlan(ReadOnlyBag(path))
            else:
                plan = split.SplitPlan(path)
            plan.complete_plan()
        else:
            plan = mksplitter("neigh" if how == "neigh" else "well", mx, None, [odd] if how == "forhead" else None).plan(path)
        split_and_check(ctx, path, files, plan)
    elif case == "names":
        a = "-" + ctx.text("a", 0, p["k"], "a. #") + "x"
        b = "-" + ctx.text("b", 0, p["k"], "a. #") + "x"
        ctx.assume(a != b)
        d = ctx.choice("d", ["data/", "data/x/", ""])
        files = [(d + a, "t0", ctx.int("s0", 0, 3)), ("data/" + b, "t1", ctx.int("s1", 0, 3))]
        mx = ctx.int("max", 1, 4)
        mkbag(ctx, src, files)
        plan = mksplitter(ctx.choice("sp", ["well", "neigh"]), mx).plan(src)
        split_and_check(ctx, src, files, plan)
    elif case == "dirs":
        files = [("data/a", "t0", ctx.int("s0", 0, 3)), ("data/x/b", "t1", ctx.int("s1", 0, 3))]
        for i, d in enumerate(["data/e/", "data/x/e/", "meta/m/e/", "top/"]):
            if ctx.flag("d%d" % i):
                files.append((d,))
        mkbag(ctx, src, files)
        mx = ctx.int("max", 1, 5)
        how = ctx.choice("how", ["well", "neigh", "complete"])
        if how == "complete":
            plan = split.SplitPlan(src)
            plan.complete_plan()
        else:
            plan = mksplitter(how, mx).plan(src)
        split_and_check(ctx, src, files, plan)
    elif case == "rich":
        # a tree of all kinds of names and layouts, with any limit
        files = rich()
        mkbag(ctx, src, files)
        path = src
        if p["form"] != "dir":
            path = ctx.path("src." + p["form"])
            ctx.archive(path, "zip" if p["form"] == "zip" else "tar", src, "src")
            ctx.rmtree(src)
        how = ctx.choice("how", ["complete", "part"] + (["well", "neigh"] if p["form"] == "dir" else []))
        if how in ("well", "neigh"):
            plan = mksplitter(how, ctx.int("max", 5, 16), None, ["data/A", "/about.txt"] if ctx.flag("reserve") else None).plan(path)
        else:
            plan = split.SplitPlan(path)
            if how == "part":
                # one file or empty directory of any name is planned by hand
                one = ctx.choice("one", [f[0].rstrip("/") for f in files])
                plan._manifests.append({"contents": [one], "name": "m0", "totalsize": 0})
            plan.complete_plan()
        split_and_check(ctx, path, files, plan)
    elif case == "handplan":
        files = [("data/a", "t0", 3), ("data/x/b", "t1", 2), ("meta/c", "t2", 1), ("data/x/d", "t3", 0), ("data/e/",)]
        mkbag(ctx, src, files)
        plan = split.SplitPlan(src)
        m = [[], []]
        for i, f in enumerate(files):
            k = ctx.choice("b%d" % i, [0, 1, 2])
            if k < 2:
                m[k].append(f[0].rstrip("/"))
        for k in range(2):
            plan._manifests.append({"contents": m[k], "name": "m%d" % k, "totalsize": 0})
        miss = drain(plan.missing())
        for i, f in enumerate(files):
            ctx.check((f[0].rstrip("/") in m[0] + m[1]) == (f[0].rstrip("/") not in [x.rstrip("/") for x in miss]),
                      "missing() lists exactly the files not in the plan")
        ctx.check(plan.is_complete() == (len(miss) == 0), "complete iff nothing is missing")
        plan.complete_plan()
        ctx.check(plan.is_complete(), "completing a plan makes it complete")
        split_and_check(ctx, src, files, plan)
