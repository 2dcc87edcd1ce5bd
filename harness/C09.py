"""Amending keeps the earlier aggregation and adds the update on top."""
from harness.lib import mkbag, lines_of
from harness.rich import rich

COVERS = ["plain amendee", "head amendee", "overridden file", "untouched file", "deletion kept", "deletion undone", "own deletion",
          "repeated amendment", "amended twice", "remarks", "selected files", "profile version kept"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names spread over three bags with unusual names; earlier aggregations of one or two bags or a plain bag (as a directory, an opened bag or serialized), two shared paths and two fixed ones in any placement, any deletion lists over them, 0-2 amending bags; any of 5 include and 4 exclude lists; chains of two amendments and two amendments of the same bag; location and remark texts of up to 2 characters",
          "thorough": "three shared paths and two amending bags at once; longer texts"}
OUTSIDE = "amending bags with the name of an earlier member; keeping a profile version before 0.3; deletion of directories; a path that the amendment itself both deletes and provides"
BUDGET = {"quick": 150, "thorough": 2400}

HASH = "a# \t"


def cases(tier):
    t = tier == "thorough"
    out = []
    for nold in (1, 2):
        for extra in ((0, 1) if not t else (0, 1, 2)):
            out.append(("head", {"nold": nold, "extra": extra, "paths": 3 if t and extra < 2 else 2}))
    for extra in ((0, 1, 2) if t else (0, 1)):
        out.append(("plain", {"extra": extra}))
    out.append(("chain", {}))
    out.append(("same", {}))
    out.append(("remarks", {"k": 3 if t else 2}))
    out.append(("select", {}))
    out.append(("rich", {}))
    out.append(("profile", {}))
    return out


PATHS = ["data/a", "data/d/b", "meta/c"]


def parse(ctx, root, td="multibag"):
    """what the tag files say, read independently of the code"""
    mem = []
    for ln in lines_of(ctx, root + "/" + td + "/member-bags.tsv") or []:
        mem.append(ln.split("\t"))
    lu = {}
    for ln in lines_of(ctx, root + "/" + td + "/file-lookup.tsv") or []:
        p, b = ln.split("\t")
        ctx.check(p not in lu, "a file is listed once in the lookup list")
        lu[p] = b
    dl = lines_of(ctx, root + "/" + td + "/deleted.txt") or []
    return mem, lu, sorted(dl)


def info_of(ctx, root):
    out = {}
    for ln in lines_of(ctx, root + "/bag-info.txt"):
        k, v = ln.split(": ", 1)
        out.setdefault(k, []).append(v)
    return out


def sub(ctx, name, paths):
    return [p for p in paths if ctx.flag(name + p)]


def check_common(ctx, newdir, old, version, depr, profile="0.4"):
    """the parts that do not depend on the aggregation"""
    got = info_of(ctx, newdir)
    ctx.check(got.get("Multibag-Head-Version") == [version], "the new head records its version")
    ctx.check(got.get("Multibag-Head-Deprecates") == depr, "the new head deprecates all that the earlier one deprecated, and the earlier one")
    ctx.check(got.get("Multibag-Version") == [profile], "the profile version is recorded")
    ctx.check(got.get("Multibag-Tag-Directory") == ["multibag"], "the tag directory is recorded")
    for k in old:
        if not k.startswith("Multibag") and k != "Internal-Sender-Description":
            ctx.check(got.get(k) == old[k], "other metadata of the amendment is kept (%s)" % k)
    tl = lines_of(ctx, newdir + "/tagmanifest-sha256.txt")
    ctx.check(tl is not None, "there is a tag manifest")
    names = []
    for ln in tl:
        h, p = ln.split(None, 1)
        names.append(p)
        ctx.check(ctx.isfile(newdir + "/" + p) and h == ctx.digest("sha256", newdir + "/" + p), "the tag manifest of the new head is right (%s)" % p)
    for p in ("multibag/member-bags.tsv", "multibag/file-lookup.tsv"):
        ctx.check(p in names, "the tag manifest lists the multibag tag files")


def run(ctx, case, **p):
    from multibag.amend import Amender, amend_bag_with
    from multibag.access.bagit import open_bag, Bag
    b = ctx.path("b")
    if case in ("head", "plain"):
        paths = PATHS[:p.get("paths", 2)]
        old_lu, old_mem, old_del = {}, [], []
        if case == "head":
            ctx.cover("head amendee")
            oldmembers = ["m1", "h1"][2 - p["nold"]:]
            have = {}
            for m in oldmembers:
                have[m] = sub(ctx, m, paths)
                for f in have[m]:
                    old_lu[f] = m
                old_lu["data/only-" + m] = m
            old_del = sub(ctx, "del", paths)
            h1 = [(f, "h1" + f, 1) for f in have["h1"]] + [("data/only-h1", "h1", 1)]
            h1 += [("mbt/member-bags.tsv", "".join([m + "\tu:" + m + "\ti\t# c\n" for m in oldmembers])),
                   ("mbt/file-lookup.tsv", "".join(["%s\t%s\n" % (f, old_lu[f]) for f in old_lu]))]
            if old_del:
                h1.append(("mbt/deleted.txt", "".join([f + "\n" for f in old_del])))
            mkbag(ctx, b + "/h1", h1, info=[("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.5"), ("Multibag-Tag-Directory", "mbt"),
                                            ("Multibag-Head-Deprecates", "1.0"), ("Multibag-Head-Deprecates", "1.2,h0")][:5 if p["nold"] == 2 else 4])
            old_mem = [[m, "u:" + m, "i", "# c"] for m in oldmembers]
            depr = ["1.0", "1.2,h0"][:p["nold"]] + ["1.5"]
            oldname = "h1"
        else:
            ctx.cover("plain amendee")
            have = {"p1": sub(ctx, "p1", paths)}
            mkbag(ctx, b + "/p1", [(f, "p1" + f, 1) for f in have["p1"]] + [("data/only-p1", "p1", 1), ("note", "x", 1)])
            for f in have["p1"] + ["data/only-p1"]:
                old_lu[f] = "p1"
            old_mem = [["p1"]]
            depr = ["1"]
            oldname = "p1"
        amendee = b + "/" + oldname
        form = ctx.choice("form", ["dir", "bag", "zip"] if not (case == "head" and p["extra"]) else ["bag"])
        if form == "zip":
            ctx.archive(amendee + ".zip", "zip", amendee, oldname)
            amendee = amendee + ".zip"
        elif form == "bag":
            amendee = Bag(amendee)
        provided = []
        lu = dict(old_lu)
        mem = list(old_mem)
        extras = []
        for i in range(p["extra"]):
            n = "n%d" % (i + 1)
            fs = sub(ctx, n, paths)
            mkbag(ctx, b + "/" + n, [(f, n + f, 1) for f in fs] + [("data/only-" + n, n, 1)])
            for f in fs + ["data/only-" + n]:
                provided.append(f)
                if f.startswith("data/"):
                    lu[f] = n
            mem.append([n])
            extras.append(b + "/" + n)
        fs = sub(ctx, "h2", paths)
        own = [f for f in sub(ctx, "own", paths[:1]) if f not in fs + provided]
        # the new head may carry leftovers of an earlier attempt
        stale = p["extra"] == 0 and ctx.flag("stale")
        hfiles = [(f, "h2" + f, 1) for f in fs] + [("data/only-h2", "h2", 1)]
        if stale:
            hfiles += [("multibag/member-bags.tsv", "x\nh1\n"), ("multibag/file-lookup.tsv", "data/a\tx\ndata/q\th1\ndata/d/b\th2\n")]
        if own:
            ctx.cover("own deletion")
            hfiles.append(("multibag/deleted.txt", "".join([f + "\n" for f in own])))
        mkbag(ctx, b + "/h2", hfiles, info=[("Contact", "me"), ("Two", "1"), ("Two", "2")] + ([("Multibag-Version", "0.4"), ("Multibag-Head-Version", "0")] if stale else []))
        old_info = info_of(ctx, b + "/h2")
        for f in fs + ["data/only-h2"]:
            provided.append(f)
            if f.startswith("data/"):
                if f in lu:
                    ctx.cover("overridden file")
                lu[f] = "h2"
        mem.append(["h2"])
        amend_bag_with(amendee, b + "/h2", "2.0", *extras)
        gm, gl, gd = parse(ctx, b + "/h2")
        ctx.check(gm == mem, "the members are the earlier ones, the amending ones and the new head, in order and with their remarks")
        ctx.check(gl == lu, "every file maps to the last bag that provides it")
        exp = sorted([f for f in old_del if f not in provided] + [f for f in own if f not in old_del])
        if [f for f in old_del if f not in provided]:
            ctx.cover("deletion kept")
        if [f for f in old_del if f in provided]:
            ctx.cover("deletion undone")
        if [f for f in old_lu if f not in provided]:
            ctx.cover("untouched file")
        ctx.check(gd == exp, "deleted paths stay deleted unless they are provided again")
        check_common(ctx, b + "/h2", old_info, "2.0", depr)
        if form == "bag":
            ctx.check(amendee.info.get("Multibag-Head-Deprecates") == {"head": "1.0" if p.get("nold") == 1 else ["1.0", "1.2,h0"], "plain": None}[case], "the amended bag's metadata is not changed")
    elif case == "chain":
        # amending what was amended
        ctx.cover("amended twice")
        lu = {}
        prov = {}
        for n in ("p0", "h1", "h2", "h3"):
            fs = sub(ctx, n, PATHS[:2])
            prov[n] = fs
            files = [(f, n + f, 1) for f in fs] + [("data/only-" + n, n, 1)]
            if n == "h1":
                d1 = [f for f in sub(ctx, "del", PATHS[:2]) if f not in fs]
                if d1:
                    files.append(("multibag/deleted.txt", "".join([f + "\n" for f in d1])))
            mkbag(ctx, b + "/" + n, files)
        old = {}
        for n in ("p0", "h1", "h2", "h3"):
            old[n] = info_of(ctx, b + "/" + n)
            for f in prov[n] + ["data/only-" + n]:
                lu[f] = n
        vers = ["7", "7.1", "8"]
        prev = "p0"
        dl = d1
        for i, n in enumerate(("h1", "h2", "h3")):
            amend_bag_with(b + "/" + prev, b + "/" + n, vers[i])
            gm, gl, gd = parse(ctx, b + "/" + n)
            ctx.check(gm == [[x] for x in ["p0", "h1", "h2", "h3"][:i + 2]], "the members are the earlier ones and the new head")
            if i > 0:
                dl = [f for f in dl if f not in prov[n]]
            ctx.check(gd == sorted(dl), "deleted paths stay deleted unless they are provided again")
            check_common(ctx, b + "/" + n, old[n], vers[i], ["1"] + vers[:i])
            prev = n
        ctx.check(gl == lu, "every file maps to the last bag that provides it")
    elif case == "same":
        # two amendments of one opened bag do not influence each other, and repeating one changes nothing
        ctx.cover("repeated amendment")
        nd = ctx.choice("nd", [0, 1, 2])
        depr = ["0.1", "0.2,x"][:nd]
        d1 = sub(ctx, "del", PATHS[:2])
        files = [("data/only-h1", "h1", 1), ("multibag/member-bags.tsv", "h1\n"), ("multibag/file-lookup.tsv", "data/only-h1\th1\n")]
        if d1:
            files.append(("multibag/deleted.txt", "".join([f + "\n" for f in d1])))
        mkbag(ctx, b + "/h1", files, info=[("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1")] + [("Multibag-Head-Deprecates", d) for d in depr])
        amendee = Bag(b + "/h1")
        order = ctx.choice("order", [("h2", "h3"), ("h2", "h2"), ("h2", "h3", "h2")])
        prov = {}
        for n in ("h2", "h3"):
            prov[n] = sub(ctx, n, PATHS[:2])
            mkbag(ctx, b + "/" + n, [(f, n + f, 1) for f in prov[n]] + [("data/only-" + n, n, 1)])
        old = {"h2": info_of(ctx, b + "/h2"), "h3": info_of(ctx, b + "/h3")}
        for i, n in enumerate(order):
            amend_bag_with(amendee, b + "/" + n, "2." + str(i))
            gm, gl, gd = parse(ctx, b + "/" + n)
            ctx.check(gm == [["h1"], [n]], "the members are the earlier ones and the new head")
            lu = {"data/only-h1": "h1", "data/only-" + n: n}
            for f in prov[n]:
                lu[f] = n
            ctx.check(gl == lu, "every file maps to the last bag that provides it")
            ctx.check(gd == sorted([f for f in d1 if f not in prov[n]]), "deleted paths stay deleted unless they are provided again")
            check_common(ctx, b + "/" + n, old[n], "2." + str(i), depr + ["1"])
    elif case == "remarks":
        ctx.cover("remarks")
        mkbag(ctx, b + "/p1", [("data/a", "a", 1)])
        mkbag(ctx, b + "/n1", [("data/b", "b", 1)])
        mkbag(ctx, b + "/h2", [("data/c", "c", 1)])
        vals = []
        for n in ("n1", "h2"):
            pid = ctx.text(n + "pid", 1, p["k"], "u:/") if ctx.flag(n + "haspid") else None
            com = ctx.text(n + "com", 1, 2, "c#") if ctx.flag(n + "hascom") else None
            inf = ["i", "j"][:ctx.choice(n + "ninfo", [0, 1, 2])]
            vals.append((pid, com, inf))
        am = Amender(b + "/p1", b + "/h2", vals[1][0], vals[1][1], vals[1][2])
        am.init_from_amendee()
        am.add_amending_bag(b + "/n1", pid=vals[0][0], comment=vals[0][1], info=vals[0][2])
        am.finalize("2")
        from multibag.access.multibag import open_headbag
        got = open_headbag(b + "/h2", True).member_bags()
        ctx.check([x.name for x in got] == ["p1", "n1", "h2"], "the members are the earlier ones, the amending ones and the new head")
        for i in (0, 1):
            g = got[i + 1]
            ctx.check(g.uri == vals[i][0], "a member has the location given for it")
            ctx.check(g.comment == vals[i][1], "a member has the comment given for it")
            ctx.check(list(g.info) == vals[i][2], "a member has the information given for it")
        ctx.check(got[0].uri is None and not got[0].comment and not got[0].info, "a plain amendee has no remarks")
    elif case == "profile":
        # an earlier head bag of another profile version
        pv = ctx.choice("pv", ["0.3", "0.4", "0.5", None])
        keep = ctx.choice("keep", [None, False, True])
        dl = ["data/gone"] if ctx.flag("del") else []
        files = [("data/a", "a", 1), ("multibag/member-bags.tsv", "m1\nh1\n"), ("multibag/file-lookup.tsv", "data/a\th1\ndata/b\tm1\n")]
        if dl:
            files.append(("multibag/deleted.txt", "data/gone\n"))
        mkbag(ctx, b + "/h1", files, info=([("Multibag-Version", pv)] if pv else []) + [("Multibag-Head-Version", "1.5")])
        mkbag(ctx, b + "/n1", [("data/c", "c", 1)])
        mkbag(ctx, b + "/h2", [("data/b", "b", 1)], info=[("Contact", "me")] + ([("Multibag-Version", "0.3")] if ctx.flag("had") else []))
        old_info = info_of(ctx, b + "/h2")
        am = Amender(b + "/h1", b + "/h2")
        if keep is None:
            am.init_from_amendee()
        else:
            am.init_from_amendee(keep)
        more = ctx.flag("more")
        if more:
            am.add_amending_bag(b + "/n1")
        am.finalize("2")
        gm, gl, gd = parse(ctx, b + "/h2")
        ctx.check(gm == [["m1"], ["h1"]] + ([["n1"]] if more else []) + [["h2"]], "the members are the earlier ones, the amending ones and the new head")
        lu = {"data/a": "h1", "data/b": "h2"}
        if more:
            lu["data/c"] = "n1"
        ctx.check(gl == lu, "every file maps to the last bag that provides it")
        ctx.check(gd == dl, "deleted paths stay deleted unless they are provided again")
        if keep and pv:
            ctx.cover("profile version kept")
        check_common(ctx, b + "/h2", old_info, "2", ["1.5"], pv if keep and pv else "0.4")
    elif case == "rich":
        # unusual names of files and bags, amending bags serialized or opened, totals recorded wrong before
        kind = ctx.choice("kind", ["plain", "head"])
        k = ctx.choice("k", [0, 1, 2, 3, 4, 5])
        names = [f[0] for f in rich(dirs=False)]
        part = {}
        for j, n in enumerate(("p", "n", "h")):
            part[n] = [f for i, f in enumerate(rich()) if ((i * 5 + k) % 7 + 1) & (1 << j)]
        old = ["old", "o.1 x", "O#", "\u00f6", "h2", "data"][k]
        new = ["new", "n.2 x", "N#", "\u00fc", "h10", "meta"][k]
        am = ["am", "a.zip", "A", "h 2", "h1", "multibag"][k]
        old_del = []
        if kind == "head":
            lu = dict([(f, ["first", old][i % 2]) for i, f in enumerate(names)])
            old_del = [f for i, f in enumerate(names) if i % 4 == k % 4]
            lu = dict([(f, lu[f]) for f in lu if f not in old_del])
            mem = [["first", "http://x.org/a%20b", "# first"], [old, "", "x y", "# c #"]]
            td = ["multibag", "mb", "m b/x", "meta/multibag", "Multibag", "multibag2"][k]
            files = part["p"] + [(td + "/member-bags.tsv", "first\thttp://x.org/a%%20b\t# first\n%s\t\tx y\t# c #\n" % old), (td + "/file-lookup.tsv", "".join(["%s\t%s\n" % x for x in lu.items()])), (td + "/deleted.txt", "".join([f + "\n" for f in old_del]))]
            mkbag(ctx, b + "/" + old, files, info=[("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.5"), ("Multibag-Tag-Directory", td)])
            depr = ["1.5"]
        else:
            mkbag(ctx, b + "/" + old, part["p"])
            lu = dict([(f[0], old) for f in part["p"] if len(f) == 3 and f[0].startswith("data/")])
            mem = [[old]]
            depr = ["1"]
        mkbag(ctx, b + "/" + am, part["n"])
        mkbag(ctx, b + "/" + new, part["h"], info=[("Contact", "me"), ("Two", "1"), ("Two", "2"), ("Bag-Count", "1 of 1")][:3])
        t = ctx.text_of(b + "/" + new + "/bag-info.txt")
        tot = [ln for ln in t.split("\n") if ln.startswith("Payload-Oxum")][0]
        old_info = info_of(ctx, b + "/" + new)
        form = ctx.choice("form", ["dir", "zip", "bag"])
        src = b + "/" + am
        if form == "zip":
            ctx.archive(src + "-x.zip", "zip", src, am)
            src = src + "-x.zip"
        elif form == "bag":
            src = open_bag(src)
        amend_bag_with(b + "/" + old, b + "/" + new, "2.0", src)
        for n, bn in (("n", am), ("h", new)):
            for f in part[n]:
                if len(f) == 3 and f[0].startswith("data/"):
                    lu[f[0]] = bn
        gm, gl, gd = parse(ctx, b + "/" + new)
        ctx.check(gm == mem + [[am], [new]], "the members are the earlier ones, the amending ones and the new head, in order and with their remarks")
        ctx.check(gl == lu, "every file maps to the last bag that provides it")
        prov = [f[0] for f in part["n"] + part["h"]]
        ctx.check(gd == sorted([f for f in old_del if f not in prov]), "deleted paths stay deleted unless they are provided again")
        check_common(ctx, b + "/" + new, old_info, "2.0", depr)
    else:
        # choosing which files of the amending bags go to the lookup list
        ctx.cover("selected files")
        mkbag(ctx, b + "/p1", [("data/a", "a", 1), ("data/d/b", "b", 1)])
        files = ["data/a", "data/d/b", "data/d/e/f", "meta/c"]
        mkbag(ctx, b + "/n1", [(f, "n1" + f, 1) for f in files])
        mkbag(ctx, b + "/h2", [(f, "h2" + f, 1) for f in files])
        incs = [None, ["data", "meta"], ["data/d"], ["data/d/b", "meta/c"], ["nowhere"]]
        excs = [None, ["data/a"], ["data/d"], ["meta/c", "data/d/e"]]
        am = Amender(b + "/p1", b + "/h2")
        am.init_from_amendee()
        lu = {"data/a": "p1", "data/d/b": "p1"}
        for n in ("n1", "h2"):
            inc = ctx.choice(n + "inc", incs)
            exc = ctx.choice(n + "exc", excs)
            if n == "n1":
                am.add_amending_bag(b + "/n1", inc, exc)
            else:
                am.finalize("2", inc, exc)
            for i in inc or ["data"]:
                if i in (exc or []):
                    continue
                for f in files:
                    out = [e for e in exc or [] if f == e or (f.startswith(e + "/") and (e + "/").startswith(i + "/"))]
                    if f == i or (f.startswith(i + "/") and not out):
                        lu[f] = n
        gm, gl, gd = parse(ctx, b + "/h2")
        ctx.check(gl == lu, "exactly the chosen files map to the amending bag")
        ctx.check(gm == [["p1"], ["n1"], ["h2"]], "the members are the earlier ones, the amending ones and the new head")
