"""Restoration combines members in list order, later ones winning."""
from harness.lib import same_tree
from harness.agg import Agg
from harness.rich import rich

COVERS = ["overlap", "in place", "serialized head", "same name", "existing destination"]
BOUNDS = {"quick": "3 members, 3 paths present or absent in each (all combinations, one of them empty), members as directories, zip and tar (2 paths); symbolic names of up to 3 characters, 28 names that software tends to treat specially, as file or directory names",
          "thorough": "4 members with 3 paths; names of up to 3 characters"}
OUTSIDE = "a path that is a file in one member and a directory in another; fetch lists (C08); deletions (C06)"
BUDGET = {"quick": 150, "thorough": 1500}
ODD = ["data", "meta", "bagit.txt", "bag-info.txt", "fetch.txt", "manifest-sha256.txt", "tagmanifest-md5.txt", "multibag", "member-bags.tsv", ".git", "CVS",
       ".DS_Store", "Thumbs.db", "~x", "x~", "#x#", "x.tmp", "x.zip", "x y", "A", "a", "\u00e9", "__pycache__", "lost+found", "0", "h", "m", "_membercache"]
PATHS = ["data/a", "data/x/b", "meta/c"]


def cases(tier):
    t = tier == "thorough"
    out = []
    for forms in (["dir", "dir", "dir"], ["zip", "dir", "dir"], ["tgz", "zip", "zip"]):
        out.append(("overlap", {"forms": forms, "names": ["m2", "m10", "m1"], "paths": 3 if t or forms[0] == "dir" else 2}))
    if t:
        out.append(("overlap", {"forms": ["dir"] * 4, "names": ["m2", "m10", "m1", "b"]}))
    out.append(("inplace", {"names": ["zz", "b", "h"]}))
    out.append(("existing", {"names": ["zz", "h"]}))
    out.append(("names", {"k": 3 if t else 2}))
    out.append(("dirs", {}))
    out.append(("odd", {"form": "dir"}))
    out.append(("odd", {"form": "zip"}))
    out += [("rich", {"form": f}) for f in ("dir", "zip", "inplace")]
    return out


def run(ctx, case, **p):
    from multibag.restore import restore_bag, BagRestorer
    dest = ctx.path("dest")
    if case in ("rich", "odd"):
        # a destination that is called as the head bag
        ctx.mkdir(ctx.path("o"))
        dest = ctx.path("o", "h")
    if case in ("overlap", "inplace", "existing"):
        members = []
        empty = ctx.int("empty", 0, len(p["names"]) - 1)
        for i, nm in enumerate(p["names"]):
            files = []
            for j, path in enumerate(PATHS[:p.get("paths", 3)]):
                if ctx.flag("p%d%d" % (i, j)):
                    files.append((path, "%s-%d" % (nm, j), 0 if j == 0 and i == empty else 2 + i))
            members.append({"name": nm, "files": files, "form": p.get("forms", ["dir"] * 4)[i]})
        agg = Agg(ctx, ctx.path("in"), members)
        if len([1 for m in members if "data/a" in [f[0] for f in m["files"]]]) > 1:
            ctx.cover("overlap")
        if members[-1]["form"] != "dir":
            ctx.cover("serialized head")
        if case == "inplace":
            ctx.cover("in place")
            restore_bag(agg.head)
            dest = agg.head
        elif case == "existing":
            # a destination that already has part of the restored bag: what is there is kept
            ctx.cover("existing destination")
            r = BagRestorer(agg.head, dest, ctx.path("in"))
            r._restore_from(agg.head)
            r.restore()
        else:
            # the archive of the head bag stands beside the other members
            b = restore_bag(agg.head, dest, ctx.path("in"))
            ctx.check(b.path == dest, "the restored bag is returned")
        agg.check_files(dest)
    elif case == "names":
        a = ctx.text("a", 0, p["k"], "aA. #~_") + "x"
        b = ctx.text("b", 0, p["k"], "aA. #~_") + "x"
        d = ctx.choice("d", ["data/", "meta/", "data/y/", "", "data/.y/"])
        # (the format of manifests cannot tell blanks before a path)
        ctx.assume(d != "" or not (a.startswith(" ") or b.startswith(" ")))
        files = [[(d + a, "t0", 3)], [(d + b, "t1", 4)], []]
        if ctx.flag("head"):
            files[2] = [(d + b, "t2", 5)]
        if a == b:
            ctx.cover("same name")
        agg = Agg(ctx, ctx.path("in"), [{"name": n, "files": f} for n, f in zip(["m1", "m2", "h"], files)], lookup=False)
        restore_bag(agg.head, dest)
        agg.check_files(dest)
    elif case == "rich":
        # every file of the tree is in one to three of three members
        files = [[], [], []]
        r = ctx.int("r", 1, 7)
        for i, f in enumerate(rich()):
            k = (i * 3 + r) % 7 + 1
            for j in range(3):
                if k & (1 << j):
                    if len(f) == 1:
                        files[j].append(f)
                    else:
                        files[j].append((f[0], f[1] + "m%d" % j, f[2] if j != 1 else (f[2] + 4) % 5))
        fm = "dir" if p["form"] == "inplace" else p["form"]
        agg = Agg(ctx, ctx.path("in"), [{"name": n, "files": f, "form": fm} for n, f in zip(["z", "m", "h"], files)])
        if p["form"] == "inplace":
            restore_bag(agg.head)
            dest = agg.head
        else:
            restore_bag(agg.head, dest)
        agg.check_files(dest)
        agg.check_manifests(dest)
    elif case == "odd":
        # names that software tends to treat specially
        a = ctx.choice("a", ODD)
        b = a if ctx.flag("same") else "zz"
        dirs = ctx.choice("dirs", ["%s", "%s/f", ".%s/f", "x/%s/g/f"])
        top = ctx.choice("top", ["data/", "meta/"])
        f = top + dirs % a
        g = top + dirs % b
        files = [(f, "t0", 3)]
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [(f, "t0", 3)] + ([(g, "t1", 0)] if f != g else []), "form": p["form"]},
                                        {"name": "h", "files": [(g, "t2", 5)]}])
        restore_bag(agg.head, dest)
        agg.check_files(dest)
    else:
        files = []
        for i in range(2):
            f = [("data/f%d" % i, "t%d" % i, 1)]
            for j, d in enumerate(["data/e/", "data/x/e/", "meta/e/"]):
                if ctx.flag("d%d%d" % (i, j)):
                    f.append((d,))
            files.append(f)
        if ctx.flag("filled"):
            files[0].append(("data/x/e/f", "q", 2))
        form = ctx.choice("form", ["dir", "zip", "tar"])
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": files[0], "form": form}, {"name": "h", "files": files[1]}])
        restore_bag(agg.head, dest)
        agg.check_files(dest)
