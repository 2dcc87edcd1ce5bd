"""Plans of the size-limited splitters respect the limits and the head-bag reservations."""
from harness.lib import mkbag, drain
from harness.C01 import mksplitter, LAYOUTS

COVERS = ["over target", "single oversize", "full", "reserved", "leftover dir"]
BOUNDS = {"quick": "4 files in 3 layouts with symbolic sizes 0..40, maximum 1..40 and target none or 1..40; 3 files with reservations",
          "thorough": "5 files; 4 files with reservations"}
OUTSIDE = "more files; maximum sizes below 1"
BUDGET = {"quick": 150, "thorough": 1500}


def cases(tier):
    t = tier == "thorough"
    out = []
    for s in ("well", "neigh"):
        for l in range(3):
            out.append(("limits", {"n": 5 if t else 4, "layout": l, "splitter": s, "target": False}))
            out.append(("limits", {"n": 4 if t else 3, "layout": l, "splitter": s, "target": True}))
        out.append(("reserve", {"n": 4 if t else 3, "splitter": s}))
    out.append(("twice", {}))
    return out


def total(sizes, contents):
    n = 0
    for c in contents:
        n = n + sizes[c]
    return n


def check_plan(ctx, plan, sizes, mx, tgt, reserved, extra):
    """sizes: {path: size} of all files; reserved: set of paths; extra: items only in the left-over bag"""
    mans = drain(plan.manifests())
    ctx.check(len(mans) > 0 and len(mans) <= len(sizes) + 1, "planning ends with a sensible number of bags")
    seen = []
    for m in mans:
        for c in m["contents"]:
            ctx.check(c not in seen, "no item is planned twice")
            seen.append(c)
    for f in sizes:
        ctx.check(f in seen, "every file is planned")
    for i, m in enumerate(mans):
        ctx.check(m["ishead"] == (i == len(mans) - 1), "exactly the last bag is the head bag")
        ctx.check(len(m["contents"]) > 0, "no empty bags")
        cont = m["contents"]
        last = i == len(mans) - 1
        isextra = last and (len(reserved) > 0 or len(extra) > 0)
        if isextra:
            for c in cont:
                ctx.check(c in reserved or c in extra, "the extra head bag holds reserved and left-over items only")
            for r in reserved:
                ctx.check(r in cont, "reserved files are in the head bag")
            if not extra:
                ctx.check(m["totalsize"] == total(sizes, cont), "the recorded total is the sum of the sizes")
            continue
        for c in cont:
            ctx.check(c not in reserved, "reserved files are nowhere else")
            ctx.check(c in sizes, "only files of the bag are planned")
        tot = total(sizes, cont)
        ctx.check(m["totalsize"] == tot, "the recorded total is the sum of the sizes")
        if tot > mx:
            ctx.cover("single oversize")
            ctx.check(len(cont) == 1, "a bag exceeds the maximum only with a single oversize file")
        ctx.check(total(sizes, cont[:-1]) <= tgt, "a bag is not filled further once it exceeds the target size")
        if tot > tgt:
            ctx.cover("over target")
            continue
        # closed below target: nothing that comes later would have fitted
        for later in mans[i + 1:]:
            for c in later["contents"]:
                if c in sizes and c not in reserved:
                    ctx.cover("full")
                    ctx.check(tot + sizes[c] > mx, "a bag is closed only when no remaining file fits")


def run(ctx, case, **p):
    src = ctx.path("src")
    hi = 40
    if case == "limits":
        names = LAYOUTS[p["layout"]][:p["n"]]
        sizes = {}
        files = []
        for i, nm in enumerate(names):
            sizes[nm] = ctx.int("s%d" % i, 0, hi)
            files.append((nm, "t%d" % i, sizes[nm]))
        mx = ctx.int("max", 1, hi)
        tgt = ctx.int("target", 1, hi) if p["target"] else None
        mkbag(ctx, src, files)
        plan = mksplitter(p["splitter"], mx, tgt).plan(src)
        check_plan(ctx, plan, sizes, mx, mx if tgt is None else tgt, [], [])
    elif case == "reserve":
        names = ["data/a", "data/x/b", "meta/c", "data/x/d"][:p["n"]]
        sizes = {}
        files = []
        for i, nm in enumerate(names):
            sizes[nm] = ctx.int("s%d" % i, 0, hi)
            files.append((nm, "t%d" % i, sizes[nm]))
        mx = ctx.int("max", 1, hi)
        extra = []
        if ctx.flag("emptydir"):
            files.append(("data/e/",))
            extra.append("data/e")
            ctx.cover("leftover dir")
        mkbag(ctx, src, files)
        res, asked = [], []
        for i, nm in enumerate(names):
            k = ctx.choice("r%d" % i, ["", "/", "no"])
            if k != "no":
                res.append(nm)
                asked.append(k + nm)
        if res:
            ctx.cover("reserved")
        given = list(asked)
        plan = mksplitter(p["splitter"], mx, None, given).plan(src)
        ctx.check(given == asked, "the caller's list is left unchanged")
        check_plan(ctx, plan, sizes, mx, mx, res, extra)
    else:
        # one splitter used for two bags: the first use leaves nothing behind
        sz = [ctx.int("s%d" % i, 0, hi) for i in range(3)]
        mx = ctx.int("max", 1, hi)
        mkbag(ctx, src, [("data/a", "t0", sz[0]), ("data/b", "t1", sz[1])])
        src2 = ctx.path("src2")
        mkbag(ctx, src2, [("data/a", "t0", sz[0]), ("data/c", "t2", sz[2])])
        s = mksplitter(ctx.choice("sp", ["well", "neigh"]), mx, None, ["data/b"])
        check_plan(ctx, s.plan(src), {"data/a": sz[0], "data/b": sz[1]}, mx, mx, ["data/b"], [])
        check_plan(ctx, s.plan(src2), {"data/a": sz[0], "data/c": sz[2]}, mx, mx, [], [])
