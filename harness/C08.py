"""Fetch lists of the members are merged with later members winning."""
from harness.agg import Agg
from harness.lib import lines_of
from harness.rich import rich

COVERS = ["disagreement", "no fetch list", "head only", "no final newline", "in place", "same path", "deleted"]
BOUNDS = {"quick": "37 unusual paths spread over 3 fetch lists in 7 ways with unusual urls and lengths and 4 deletion lists; 3 members, 3 paths listed or not in each (all combinations), symbolic url/length/path texts of up to 2 characters, line terminators and separators; directories, zip and tar members",
          "thorough": "the same with texts of up to 3 characters and deletions"}
OUTSIDE = "more members or paths; white space other than blanks inside a path"
BUDGET = {"quick": 150, "thorough": 1500}
PATHS = ["data/f1", "data/d/f 2", "data/f3"]


def cases(tier):
    t = tier == "thorough"
    out = []
    for form in ("dir", "zip", "inplace", "remote"):
        out.append(("merge", {"form": form, "dels": t}))
    out.append(("dels", {}))
    out.append(("text", {"k": 3 if t else 2}))
    out.append(("format", {}))
    out += [("rich", {"form": f}) for f in ("dir", "zip", "inplace")]
    return out


def fetched(ctx, dest):
    """the fetch list as {path: (url, length)}"""
    t = ctx.text_of(dest + "/fetch.txt")
    if t is None:
        return None
    got = {}
    for ln in t.split("\n"):
        if not ln:
            continue
        f = ln.split(None, 2)
        ctx.check(len(f) == 3, "a line of the fetch list has url, length and path")
        ctx.check(f[2] not in got, "a path has one entry in the fetch list")
        got[f[2]] = (f[0], f[1])
    return got


def check_fetch(ctx, agg, dest):
    exp = agg.final_fetch()
    got = fetched(ctx, dest)
    if not exp:
        ctx.cover("no fetch list")
        ctx.check(got is None, "no fetch list when there is nothing to fetch")
        return
    ctx.check(got is not None, "there is a fetch list")
    for p in exp:
        ctx.check(p in got, "path %s is in the fetch list" % (p,))
        ctx.check(got[p][0] == exp[p][0], "the url of %s is that of the last member listing it" % (p,))
        ctx.check(got[p][1] == exp[p][1], "the length of %s is that of the last member listing it" % (p,))
    for p in got:
        ctx.check(p in exp, "nothing else is in the fetch list (%s)" % (p,))


def run(ctx, case, **p):
    from multibag.restore import restore_bag, BagRestorer
    dest = ctx.path("dest")
    if case == "rich":
        # a destination that is called as one of the members
        ctx.mkdir(ctx.path("o"))
        dest = ctx.path("o", "m")
    if case in ("merge", "dels"):
        form = p.get("form", "dir")
        members = []
        names = ["zz", "b", "h"] if case == "merge" else ["zz", "h"]
        for n in names:
            fetch = [("http://e.org/%s%d" % (n, j), str(len(n) + j), x) for j, x in enumerate(PATHS) if ctx.flag(n + x)]
            members.append({"name": n, "files": [("data/" + n, n, 1)], "fetch": fetch,
                            "form": ["tgz", "zip", "zip"][names.index(n)] if form == "zip" else "dir"})
        deleted = []
        if case == "dels" or p["dels"]:
            deleted = [d for d in ["data/f1", "data/d", "data/f"] if ctx.flag("del" + d)]
            if deleted:
                ctx.cover("deleted")
        elif case == "merge":
            deleted = []
        agg = Agg(ctx, ctx.path("in"), members, deleted)
        if members[-1]["fetch"] and not members[0]["fetch"]:
            ctx.cover("head only")
        if members[0]["fetch"] and members[-1]["fetch"]:
            ctx.cover("disagreement")
        if form == "inplace":
            ctx.cover("in place")
            restore_bag(agg.head)
            dest = agg.head
        elif form == "remote":
            # the head bag lies away from the other members, which are supplied by a function
            restore_bag(agg.head, dest, ctx.path("cache"), lambda name, to: agg.paths[name] if name != "h" else None)
        else:
            restore_bag(agg.head, dest, ctx.path("in"))
        check_fetch(ctx, agg, dest)
        agg.check_files(dest)
    elif case == "text":
        k = p["k"]
        pa = "data/-" + ctx.text("pa", 0, k, "a #") + "x"
        pb = "data/-" + ctx.text("pb", 0, k, "a #") + "x"
        u = "u:" + ctx.text("u", 0, 1, "a#")
        ln = ctx.choice("len", ["-", "0", "12"])
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/m", "m", 1)], "fetch": [("u:a", "7", pa), ("u:z", "8", "data/z")]},
                                        {"name": "h", "files": [("data/h", "h", 1)], "fetch": [(u, ln, pb)]}])
        if pa == pb:
            ctx.cover("same path")
        restore_bag(agg.head, dest)
        check_fetch(ctx, agg, dest)
    elif case == "rich":
        # fetch lists that name unusual files, in different orders, with unusual urls and lengths
        names = [f[0].replace("data/", "data/r-") for f in rich(dirs=False, tags=False)]
        urls = ["http://e.org/a%20b", "ftp://x/y?z=1&w=#frag", "urn:a:b", "HTTP://E.ORG/", "file:///x", "http://e.org/\u00e9", "s3://b/k//l"]
        r = ctx.int("r", 1, 7)
        fetch = [[], [], []]
        for i, f in enumerate(names):
            k = (i * 3 + r) % 7 + 1
            for j in range(3):
                if k & (1 << j):
                    fetch[j].append((urls[(i + j) % 7] + str(j), ["-", "0", "12345678901234567890", "007"][(i + 2 * j) % 4], f))
        fetch[1].reverse()
        dels = ctx.choice("dels", [[], names[:9], ["data/r-x", "data/r-.d"], names])
        if dels:
            ctx.cover("deleted")
        form = "dir" if p["form"] == "inplace" else p["form"]
        agg = Agg(ctx, ctx.path("in"), [{"name": n, "files": [("data/" + n, n, 1)], "form": form, "fetch": f} for n, f in zip(["z", "m", "h"], fetch)], dels)
        if p["form"] == "inplace":
            ctx.cover("in place")
            restore_bag(agg.head)
            dest = agg.head
        else:
            restore_bag(agg.head, dest)
        check_fetch(ctx, agg, dest)
        agg.check_files(dest)
        agg.check_manifests(dest)
    else:
        lines = {}
        fetches = {"m": [("u:1", "5", "data/f1"), ("u:2", "6", "data/f 2")], "h": [("u:3", "7", "data/f3"), ("u:4", "8", "data/f1")]}
        agg = Agg(ctx, ctx.path("in"), [{"name": n, "files": [("data/" + n, n, 1)], "fetch": fetches[n]} for n in ("m", "h")])
        for n in ("m", "h"):
            sep = ctx.choice("sep" + n, [" ", "\t", "  "])
            nl = ctx.choice("nl" + n, ["\n", "\r\n"])
            end = ctx.choice("end" + n, ["eol", ""])
            blank = ctx.choice("blank" + n, ["", "eol"])
            t = nl.join([sep.join(f) for f in fetches[n]])
            t = t.replace("data/f 2" + nl, "data/f 2" + nl + (nl if blank else ""))
            ctx.write(agg.paths[n] + "/fetch.txt", t + (nl if end else ""))
            if not end:
                ctx.cover("no final newline")
        which = ctx.choice("how", ["restore", "fetch"])
        if which == "restore":
            restore_bag(agg.head, dest)
        else:
            BagRestorer(agg.head, dest).restore_fetch()
        check_fetch(ctx, agg, dest)
