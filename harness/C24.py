"""Member bags are found where documented, or restoration fails."""
from harness.agg import Agg
from harness.lib import mkbag

COVERS = ["directory", "serialized", "retrieved", "missing", "retrieval fails", "decoy", "default directory", "cache in destination", "in place"]
BOUNDS = {"quick": "one or two members besides the head bag, each available or not as directory and in 5 serializations, with decoys of similar names, any retrieval outcome, component directory given or default",
          "thorough": "the same for two members at once"}
OUTSIDE = "more members; remote locations"
BUDGET = {"quick": 150, "thorough": 1500}
EXT = [".zip", ".tar", ".tar.gz", ".tar.bz2", ".tgz"]
DECOYS = ["m1", "m.mbag", "xm", "m.zip.bak", "M", "m.zip2"]


def cases(tier):
    out = [("forms", {"where": w}) for w in ("given", "default")]
    out.append(("fetch", {"comp": True}))
    out.append(("fetch", {"comp": False}))
    out.append(("names", {"k": 3 if tier == "thorough" else 2}))
    out.append(("two", {}))
    return out


def put(ctx, where, name, tag, form=""):
    """a bag of this name holding data/a with this tag, as a directory or archive"""
    d = where + "/" + name
    if not form:
        mkbag(ctx, d, [("data/a", tag, 5)])
        return d
    tmp = ctx.path("tmp") + "/" + name
    mkbag(ctx, tmp, [("data/a", tag, 5)])
    ctx.mkdir(where)
    ctx.archive(d + form, "zip" if form == ".zip" else "tar", tmp, name)
    ctx.rmtree(tmp)
    return d + form


def same(ctx, dest, tag):
    ctx.blob(ctx.path("cmp", tag), tag, 5)
    return ctx.content(dest + "/data/a") == ctx.content(ctx.path("cmp", tag))


def head(ctx, where, members=("m",)):
    ctx.mkdir(where)
    mkbag(ctx, where + "/h", [("data/b", "b", 2), ("multibag/member-bags.tsv", "".join([n + "\n" for n in members]) + "h\n"),
                              ("multibag/file-lookup.tsv", "data/b\th\n")],
          info=[("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1"), ("Multibag-Tag-Directory", "multibag")])
    return where + "/h"


def attempt(fn):
    try:
        fn()
        return True
    except (OSError, ValueError):
        return False


def run(ctx, case, **p):
    from multibag.restore import restore_bag
    dest = ctx.path("dest")
    if case == "forms":
        hb = head(ctx, ctx.path("in"))
        comp = ctx.path("in") if p["where"] == "default" else ctx.path("comp")
        avail = []
        unpacked = ctx.choice("dir", ["no", "bag", "file"])
        if unpacked == "bag":
            put(ctx, comp, "m", "tdir")
            avail.append("tdir")
        elif unpacked == "file":
            ctx.mkdir(comp)
            ctx.write(comp + "/m", "not a bag")
        for e in EXT:
            if ctx.flag(e):
                put(ctx, comp, "m", "t" + e, e)
                avail.append("t" + e)
        if p["where"] == "given":
            # what lies beside the head bag does not count then
            put(ctx, ctx.path("in"), "m", "beside")
        else:
            ctx.cover("default directory")
        for d in DECOYS[:2]:
            put(ctx, comp, d, "decoy")
        ctx.cover("decoy")
        inplace = ctx.flag("inplace")
        c = None if p["where"] == "default" else comp
        if inplace:
            dest = hb
            ctx.cover("in place")
        ok = attempt(lambda: restore_bag(hb, None if inplace else dest, c))
        ctx.check(ok == (len(avail) > 0), "restoring succeeds exactly if the member is available")
        if not ok:
            ctx.cover("missing")
            return
        if "tdir" in avail:
            ctx.cover("directory")
            ctx.check(same(ctx, dest, "tdir"), "the unpacked bag is used")
        else:
            ctx.cover("serialized")
            ctx.check(len([1 for t in avail if same(ctx, dest, t)]) > 0, "a serialized bag of that name is used")
    elif case == "fetch":
        hb = head(ctx, ctx.path("in"))
        comp = ctx.path("comp")
        local = ctx.choice("local", ["", "dir", ".zip"])
        if p["comp"]:
            ctx.mkdir(comp)
            if local == "dir":
                put(ctx, comp, "m", "local")
            elif local:
                put(ctx, comp, "m", "local", local)
        put(ctx, comp + "x", "m1", "decoy")
        what = ctx.choice("what", ["none", "raise", "dir", "zip", "absent", "cached", "cachedzip"])
        beside = ctx.flag("beside")
        if beside:
            put(ctx, ctx.path("in"), "m", "beside")
        asked = []

        def fetcher(name, to):
            asked.append((name, to))
            if what == "none":
                return None
            if what == "raise":
                raise OSError("cannot reach " + name)
            if what == "absent":
                return ctx.path("nowhere", name)
            if what == "cached" or what == "cachedzip":
                ctx.check(ctx.isdir(to) or p["comp"], "the cache directory is there for the retrieval function")
                return put(ctx, to, name, "got", ".zip" if what == "cachedzip" else "")
            return put(ctx, ctx.path("remote%d" % len(asked)), name, "got", ".zip" if what == "zip" else "")
        inplace = ctx.flag("inplace")
        if inplace:
            dest = hb
            ctx.cover("in place")
        ok = attempt(lambda: restore_bag(hb, None if inplace else dest, comp if p["comp"] else None, fetcher))
        if local and p["comp"]:
            ctx.check(ok, "restoring succeeds")
            ctx.check(len(asked) == 0, "nothing is retrieved if the bag is at hand")
            ctx.check(same(ctx, dest, "local"), "the bag at hand is used")
            return
        if not p["comp"]:
            ctx.cover("cache in destination")
        ctx.check(len(asked) > 0, "the retrieval function is asked")
        for n, to in asked:
            ctx.check(n == "m", "it is asked for the member's name only")
            ctx.check(to == (comp if p["comp"] else dest + "/multibag/_membercache"), "it is given the cache directory")
        good = what not in ("none", "raise", "absent")
        ctx.check(ok == good, "restoring succeeds exactly if retrieval does")
        if ok:
            ctx.cover("retrieved")
            ctx.check(same(ctx, dest, "got"), "the retrieved bag is used")
            ctx.check(not ctx.exists(dest + "/multibag"), "the cache does not stay in the restored bag")
        else:
            ctx.cover("retrieval fails")
    elif case == "names":
        # bag names that differ from the listed one are never used
        n = "n" + ctx.text("n", 0, p["k"], "a.z") + "z"
        o = "n" + ctx.text("o", 0, p["k"], "a.z") + "z"
        form = ctx.choice("form", ["", ".zip", ".tgz"])
        hb = head(ctx, ctx.path("in"), (n,))
        put(ctx, ctx.path("in"), o, "t", form)
        ok = attempt(lambda: restore_bag(hb, dest))
        ctx.check(ok == (n == o), "only a bag of the listed name is used")
        if ok:
            ctx.check(same(ctx, dest, "t"), "the bag of the listed name is used")
    else:
        hb = head(ctx, ctx.path("in"), ("k", "m"))
        have = []
        for n in ("k", "m"):
            f = ctx.choice("form" + n, ["no", "", ".zip", ".tar", "file"])
            if f == "file":
                # an ordinary file of that name is no bag
                ctx.write(ctx.path("in") + "/" + n, "not a bag")
            elif f != "no":
                put(ctx, ctx.path("in"), n, "t" + n, f)
                have.append(n)
        ok = attempt(lambda: restore_bag(hb, dest))
        ctx.check(ok == (len(have) == 2), "restoring succeeds exactly if every member is available")
        if ok:
            ctx.check(same(ctx, dest, "tm"), "the later member wins")
