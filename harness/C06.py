"""Deleted paths are never restored, and only those are withheld."""
from harness.agg import Agg
from harness.rich import rich
from harness.lib import lines_of

COVERS = ["deleted in head", "deleted in earlier member", "deleted directory", "tag file deleted", "fetch deleted", "in place", "kept"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names, any one of its paths or directories, or that and every seventh, deleted; 2-3 members, up to 4 paths, all subsets of up to 4 deletion entries (files, directories, absent paths); deletion lines with symbolic names of up to 2 characters and symbolic white space; any file path and deletion entry of up to 3 characters and slashes below the top directory",
          "thorough": "3 members in every case; names of up to 3 characters"}
OUTSIDE = "more members or paths; a deletion entry for a standard bag file"
BUDGET = {"quick": 150, "thorough": 1500}
SETS = {
    "files": (["data/a", "data/ab", "data/b"], ["data/a", "data/ab", "data/none"]),
    "dirs": (["data/x/b", "data/x/y/c", "data/xz/w"], ["data/x", "data/x/y", "data/x/y/c"]),
    "tags": (["meta/c", "about.txt", "meta/s/d"], ["meta/c", "about.txt", "meta/s"]),
}


def cases(tier):
    t = tier == "thorough"
    out = []
    for k in sorted(SETS):
        for form in ("dir", "zip", "inplace"):
            out.append(("sets", {"which": k, "form": form, "mid": t}))
    out.append(("text", {"k": 3 if t else 2}))
    for form in ("dir", "zip", "inplace"):
        out.append(("prefix", {"k": 3 if t else 2, "form": form}))
    out += [("rich", {"form": f}) for f in ("dir", "inplace")]
    out.append(("fetch", {}))
    out.append(("empty", {}))
    return out


def finish(ctx, agg, inplace):
    from multibag.restore import restore_bag
    from multibag.access.bagit import open_bag
    # next to the bags, with a name that starts like that of the head bag
    dest = ctx.path("in", "h2")
    if inplace:
        ctx.cover("in place")
        restore_bag(agg.head)
        dest = agg.head
    else:
        restore_bag(agg.head, dest, ctx.path("in"))
    agg.check_files(dest)
    agg.check_manifests(dest)
    agg.check_oxum(dest, open_bag(dest).info)
    got = {}
    for ln in lines_of(ctx, dest + "/fetch.txt") or []:
        f = ln.split(None, 2)
        got[f[2]] = f
    exp = agg.final_fetch()
    for p in got:
        ctx.check(p in exp, "the fetch list has no deleted path (%s)" % (p,))
    for p in exp:
        ctx.check(p in got, "a path that is not deleted stays in the fetch list (%s)" % (p,))
    return dest


def run(ctx, case, **p):
    if case == "sets":
        paths, dels = SETS[p["which"]]
        members = []
        for n in (["m", "k", "h"] if p["mid"] else ["m", "h"]):
            files = [(x, n + x, len(n + x)) for x in paths if ctx.flag(n + x)]
            members.append({"name": n, "files": files, "form": "zip" if p["form"] == "zip" else "dir"})
        deleted = [d for d in dels if ctx.flag("del" + d)]
        agg = Agg(ctx, ctx.path("in"), members, deleted)
        if p["which"] == "files" and "data/a" in deleted:
            if "data/a" in [f[0] for f in members[-1]["files"]]:
                ctx.cover("deleted in head")
            elif "data/a" in [f[0] for f in members[0]["files"]]:
                ctx.cover("deleted in earlier member")
        if "data/x" in deleted:
            ctx.cover("deleted directory")
        if "about.txt" in deleted:
            ctx.cover("tag file deleted")
        finish(ctx, agg, p["form"] == "inplace")
    elif case == "text":
        f = "-" + ctx.text("f", 0, p["k"], "a. #") + "x"
        d = "-" + ctx.text("d", 0, p["k"], "a. #") + "x"
        pre = ctx.text("pre", 0, 1, " \t\n")
        post = ctx.text("post", 0, 1, " \t\n")
        end = ctx.choice("end", ["\n", "", "\r\n"])
        # a second entry after a blank line, with spaces of its own
        deltext = pre + "data/" + d + post + "\n" + "\n  data/k2  " + end
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/" + f, "t", 3), ("data/k2", "k2", 2), ("data/keep", "k", 1)]},
                                        {"name": "h", "files": []}], ["data/" + d, "data/k2"], deltext=deltext, lookup=False)
        if f != d:
            ctx.cover("kept")
        finish(ctx, agg, ctx.flag("inplace"))
    elif case == "rich":
        # any path of a tree with all kinds of names is deleted, alone or with others
        files = rich()
        names = [f[0].rstrip("/") for f in files] + ["data/x", "data/x/y", "data/.d", "meta", "database", "notes", "data/x y"]
        i = ctx.choice("i", list(range(len(names))))
        more = 7 if (i % 2 == 0) == (p["form"] == "dir") else 0
        deleted = [names[i]] + [n for j, n in enumerate(names) if more and (i + j) % more == 3]
        half = [f for k, f in enumerate(files) if k % 3 != 1]
        rest = [(f[0], f[1] + "h", f[2] + 1) if len(f) == 3 else f for k, f in enumerate(files) if k % 3 != 0]
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": half}, {"name": "h", "files": rest}], deleted, tagman=("md5",))
        finish(ctx, agg, p["form"] == "inplace")
    elif case == "prefix":
        # any file path against any deletion entry, both built from name characters and slashes
        f = "u" + ctx.text("f", 0, p["k"], "u/b") + "b"
        d = "u" + ctx.text("d", 0, p["k"], "u/b")
        ctx.assume("//" not in f)
        ctx.assume("//" not in d)
        ctx.assume(not d.endswith("/"))
        top = ctx.choice("top", ["data/", "meta/"])
        deleted = [top + d]
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/k", "k", 1), (top + f, "f", 2)], "form": "zip" if p["form"] == "zip" else "dir"},
                                        {"name": "h", "files": [("data/k2", "k", 1)]}], deleted)
        finish(ctx, agg, p["form"] == "inplace")
    elif case == "fetch":
        mf, hf = [], []
        if ctx.flag("m1"):
            mf.append(("http://e.org/m1", "5", "data/f1"))
        if ctx.flag("m2"):
            mf.append(("http://e.org/m2", "5", "data/d/f 2"))
        if ctx.flag("h1"):
            hf.append(("http://e.org/h1", "5", "data/f1"))
        deleted = [d for d in ["data/f1", "data/d", "data/f"] if ctx.flag("del" + d)]
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 1)], "fetch": mf},
                                        {"name": "h", "files": [("data/b", "b", 1)], "fetch": hf}], deleted)
        if "data/f1" in deleted:
            ctx.cover("fetch deleted")
        finish(ctx, agg, ctx.flag("inplace"))
    else:
        files = [("data/e/",), ("data/x/e/",), ("data/x/f", "f", 1)]
        deleted = [d for d in ["data/e", "data/x/e", "data/x", "data/x/f"] if ctx.flag("del" + d)]
        form = ctx.choice("form", ["dir", "zip", "tgz"])
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": files, "form": form}, {"name": "h", "files": [("data/b", "b", 1)]}], deleted)
        dest = finish(ctx, agg, False)
        for d in deleted:
            ctx.check(not ctx.exists(dest + "/" + d), "a deleted directory is absent (%s)" % (d,))
