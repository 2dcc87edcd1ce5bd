"""Paths that leave the bag are refused."""
from harness.lib import mkbag, same_tree, drain
from harness.C19 import open_view

COVERS = ["outside", "inside", "absolute", "sibling with the bag's name as prefix", "out and in again", "inner parent reference", "walked", "manifest refused", "manifest accepted",
          "tag manifest", "fetch refused", "fetch accepted", "validated", "restored", "deleted path outside", "tag directory outside"]
BOUNDS = {"quick": "one bag next to siblings and files named alike; paths made of one of 6 prefixes (none, parent, the bag's own name, absolute, absolute sibling, payload) and up to 5 characters over / . a b 2; deletion entries and tag directory names likewise when restoring",
          "thorough": "up to 6 characters"}
OUTSIDE = "symbolic links; paths with a tilde or an environment variable (documented as refused); Windows path separators; the bagit library's own reader of manifests of writable bags"
BUDGET = {"quick": 200, "thorough": 1500}
ABC = "/.ab2"


def cases(tier):
    t = tier == "thorough"
    out = []
    for view in ("writable", "read-only", "zip", "tar"):
        for i in range(6):
            out.append(("query", {"view": view, "pre": i, "k": 6 if t else 5}))
    for view in ("read-only", "zip"):
        for kind in ("manifest", "tagmanifest", "fetch"):
            out.append(("lists", {"view": view, "kind": kind, "k": 6 if t else 5}))
    for what in ("deleted", "tagdir", "lookup"):
        out.append(("restore", {"what": what, "k": 4 if t else 3}))
    return out


def setup(ctx, extra=()):
    """the bag /…/s/b and what is around it"""
    root = ctx.path("s", "b")
    mkbag(ctx, root, [("data/a", "a", 3), ("a/b", "text\n"), ("ab", "inner\n")] + list(extra), ("sha256",), [("X", "y")])
    ctx.write(ctx.path("s", "a"), "outside a")
    ctx.write(ctx.path("s", "ab"), "outside ab")
    ctx.write(ctx.path("s", "b2", "a"), "sibling")
    ctx.write(ctx.path("s", "b2", "ab"), "sibling too")
    ctx.write(ctx.path("s", "ba", "b"), "other sibling")
    ctx.write(ctx.path("s", "bb"), "file next to it")
    return root


def resolve(root, q, rel=False):
    """(inside, path below the root, left on the way, goes up somewhere) of the text of a path"""
    base = [x for x in root.split("/") if x]
    up = out = False
    segs = [] if q.startswith("/") and not rel else list(base)
    n = len(base)
    for x in q.split("/"):
        if x == "..":
            up = True
            if segs:
                segs.pop()
        elif x not in ("", "."):
            segs.append(x)
        if segs[:n] != base:
            out = True
    return segs[:n] == base, "/".join(segs[n:]), out, up


def attempt(fn, a):
    """(result, whether it was refused with an exception)"""
    try:
        return fn(a), False
    except Exception:
        return None, True


def read(bag, q):
    with bag.open_text_file(q) as fd:
        return fd.read()


def run(ctx, case, **p):
    if case == "query":
        root = setup(ctx)
        pre = ["", "..", "../b", root, root + "/../b", "data/"][p["pre"]]
        q = pre + ctx.text("q", 0 if p["pre"] != 0 else 1, p["k"], ABC)
        bag = open_view(ctx, root, p["view"])
        tree = ctx.snapshot(root)
        # read-only views take absolute paths as relative to the bag
        rel = p["view"] != "writable"
        inside, t, left, up = resolve(root, q, rel)
        isabs = q.startswith("/")
        plain = not up and not isabs and not q.endswith("/") and not q.endswith("/.") and q != ""
        if isabs:
            ctx.cover("absolute")
        kind = "none"
        if inside:
            ctx.cover("inside")
            if left:
                ctx.cover("out and in again")
            elif up:
                ctx.cover("inner parent reference")
            kind = "d" if t == "" else (tree[t][0] if t in tree else "none")
        else:
            ctx.cover("outside")
            if q.startswith("../b2") or q.startswith(root + "2"):
                ctx.cover("sibling with the bag's name as prefix")
        ok = plain or (up and not left and not isabs and not q.endswith("/") and not q.endswith("."))
        for nm, fn, exp in (("exists", bag.exists, kind != "none"), ("isfile", bag.isfile, kind == "f"), ("isdir", bag.isdir, kind == "d")):
            r, refused = attempt(fn, q)
            if not refused:
                if r:
                    ctx.check(exp, "%s is true only for what is in the bag" % nm)
                else:
                    ctx.check(not ok or not exp, "%s finds what is in the bag" % nm)
            else:
                ctx.check(not ok, "%s does not refuse a path inside the bag" % nm)
        r, refused = attempt(bag.sizeof, q)
        if not refused:
            ctx.check(kind != "none", "sizes are told only of what is in the bag")
            if kind == "f":
                ctx.check(r == ctx.size_of(root + "/" + t), "the size is that of the file in the bag")
        else:
            ctx.check(not ok or kind != "f", "the size of a file in the bag is told")
        r, refused = attempt(bag.timesfor, q)
        ctx.check(refused or kind != "none", "times are told only of what is in the bag")
        ctx.check(not refused or not ok or kind != "f", "the times of a file in the bag are told")
        if t != "data/a":
            r, refused = attempt(lambda x: read(bag, x), q)
            if not refused:
                ctx.check(kind == "f", "only files of the bag can be read")
                ctx.check(r == ctx.text_of(root + "/" + t), "the text is that of the file in the bag")
            else:
                ctx.check(not ok or kind != "f", "a file in the bag can be read")
        r, refused = attempt(lambda x: drain(bag.walk(x)), q)
        if not refused and q != "":
            ctx.cover("walked")
            got = []
            for d, ds, fs in r:
                for x in list(ds) + list(fs):
                    i2, t2, l2, u2 = resolve(root, (d + "/" + x).lstrip("/"))
                    ctx.check(i2 and t2 in tree, "only what is in the bag is walked")
                    got.append(t2)
            if kind == "d" and ok:
                below = [k for k in tree if t == "" or k.startswith(t + "/")]
                ctx.check(sorted(got) == sorted(below), "everything below the start is walked")
        elif refused:
            ctx.check(not ok or kind != "d", "a directory in the bag can be walked")
    elif case == "lists":
        from multibag.access.bagit import open_bag, BagError
        q = ctx.choice("pre", ["", "../b", "data/", "/", "../"]) + ctx.text("q", 1, p["k"], ABC)
        root = setup(ctx)
        inside, t, left, up = resolve(root, q)
        bad = q.startswith("/") or not inside
        fine = not q.startswith("/") and not up
        kind = p["kind"]
        if kind == "fetch":
            ctx.write(root + "/fetch.txt", "http://x.org/q 3 " + q + "\n")
        else:
            # a right checksum if there is a file at that place
            full = ctx.path("s") + "/" + "/".join(resolve(ctx.path("s"), "b/" + q)[1].split("/"))
            dig = ctx.digest("sha256", full) if ctx.isfile(full) else "0" * 64
            old = ctx.text_of(root + "/" + kind + "-sha256.txt") if kind == "manifest" else ""
            ctx.write(root + "/" + kind + "-sha256.txt", old + dig + "  " + q + "\n")
            if kind == "tagmanifest":
                ctx.cover("tag manifest")
        loc = root
        if p["view"] == "zip":
            ctx.archive(root + ".zip", "zip", root, "b")
            loc = root + ".zip"
        refused = False
        entries = None
        try:
            bag = open_bag(loc)
            if kind == "fetch":
                entries = drain(bag.fetch_entries())
            else:
                entries = list(bag.entries.keys())
        except Exception:
            refused = True
        if refused:
            dup = kind == "manifest" and t == "data/a"
            ctx.check(not fine or dup, "a list of paths inside the bag is not refused")
            if bad:
                ctx.cover("manifest refused" if kind != "fetch" else "fetch refused")
        else:
            ctx.check(not bad, "a list naming a path outside the bag is refused")
            ctx.cover("manifest accepted" if kind != "fetch" else "fetch accepted")
            if kind == "fetch":
                ctx.check(len(entries) == 1 and entries[0][2] == q, "the path is reported as written")
        if not bad or kind == "fetch":
            ok = True
            try:
                open_bag(loc).validate()
            except Exception:
                ok = False
            ctx.cover("validated")
            ctx.check(not (bad and ok), "a bag whose list names a path outside is not valid")
    else:
        from harness.agg import Agg
        from multibag.restore import restore_bag
        what = p["what"]
        inn, dest = ctx.path("in"), ctx.path("o", "b")
        for nm in ("a", "ab", "b2/a", "ba/b", "bb"):
            ctx.write(ctx.path("o") + "/" + nm, "not to be touched: " + nm)
            ctx.write(inn + "/" + nm, "nor this: " + nm)
        pre = ctx.choice("pre", ["", "../", "../b", "abs"])
        if pre == "abs":
            pre = ctx.path("o") + "/"
        q = pre + ctx.text("q", 1, p["k"], ABC)
        ctx.assume(q != "." and q != "..")
        mkbag(ctx, inn + "/m", [("data/a", "a", 3), ("data/ab", "b", 4), ("a/b", "tag\n")], ("sha256",), [("X", "y")])
        td = q if what == "tagdir" else "multibag"
        info = [("X", "y"), ("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.0"), ("Multibag-Tag-Directory", td)]
        files = [("data/h", "h", 5)]
        tags = [("member-bags.tsv", "m\nb\n"), ("file-lookup.tsv", ("%s\tm\n" % q) if what == "lookup" else "data/a\tm\n"), ("deleted.txt", (q + "\n") if what == "deleted" else "")]
        inside, t, left, up = resolve(inn + "/b", q)
        if what == "tagdir":
            if inside:
                ctx.stop()
            ctx.cover("tag directory outside")
        for nm, tx in tags:
            if what == "tagdir":
                # what the directory outside would have to say
                d = ctx.path("in", "b") + "/" + q if not q.startswith("/") else q
                continue
            files.append((td + "/" + nm, tx))
        mkbag(ctx, inn + "/b", files, ("sha256",), info)
        if what == "deleted" and not inside:
            ctx.cover("deleted path outside")
        before, inb = ctx.snapshot(ctx.path("o")), ctx.snapshot(inn)
        try:
            restore_bag(inn + "/b", dest, inn)
            ctx.cover("restored")
            done = True
        except Exception:
            done = False
        after = ctx.snapshot(ctx.path("o"))
        for k in before:
            ctx.check(k in after and after[k] == before[k], "nothing outside of the destination is changed (%s)" % (k,))
        for k in after:
            ctx.check(k in before or k == "b" or k.startswith("b/"), "nothing is created outside of the destination (%s)" % (k,))
        same_tree(ctx, inb, ctx.snapshot(inn), "the members")
        if done and what != "tagdir" and not q.startswith("/") and not inside:
            for f in ("data/a", "data/ab", "a/b", "data/h"):
                ctx.check("b/" + f in after, "files of the bag are restored (%s)" % (f,))
