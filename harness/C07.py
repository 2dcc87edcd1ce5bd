"""A restored bag's manifests and metadata agree with its content."""
from harness.agg import Agg
from harness.lib import BAGIT, lines_of
from harness.rich import rich

COVERS = ["override", "mixed algorithms", "other tag directory", "aggregation info", "deleted", "in place", "fetchable", "tag manifest", "remarks"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names spread over 3 members in 7 ways with 9 combinations of algorithms; 15 metadata elements with unusual names and values, any of them absent; 3 members, 2-3 paths in any combination of them, 2 checksum algorithms per member in any combination, tag directory names, metadata of up to 3 elements with symbolic values of up to 2 characters",
          "thorough": "the same with more combinations at once"}
OUTSIDE = "more members or paths; the Bag-Size text (C25)"
BUDGET = {"quick": 150, "thorough": 1500}
ALGS = [("sha256",), ("md5",), ("sha256", "md5")]


def cases(tier):
    t = tier == "thorough"
    out = []
    for tm in ([], ["sha256"]):
        out.append(("overlap", {"tagman": tm, "inplace": False}))
        out.append(("overlap", {"tagman": tm, "inplace": True}))
    out.append(("algs", {"tagman": ["sha256"]}))
    out.append(("algs", {"tagman": []}))
    out.append(("algs", {"tagman": ["sha512"]}))
    out.append(("tagdir", {}))
    out.append(("info", {"k": 3 if t else 2}))
    out.append(("fetch", {}))
    out += [("rich", {"form": f}) for f in ("dir", "zip", "inplace")]
    out.append(("elements", {}))
    out.append(("flags", {}))
    return out


def finish(ctx, agg, inplace=False):
    from multibag.restore import restore_bag
    from multibag.access.bagit import open_bag
    ctx.mkdir(ctx.path("o"))
    dest = ctx.path("o", "h")
    if inplace:
        restore_bag(agg.head)
        dest = agg.head
    else:
        restore_bag(agg.head, dest)
    agg.check_files(dest)
    agg.check_manifests(dest)
    bag = open_bag(dest)
    agg.check_oxum(dest, bag.info)
    ctx.check(not ctx.exists(dest + "/" + agg.tagdir), "the multibag tag directory is gone")
    for k in bag.info:
        ctx.check(not k.startswith("Multibag-"), "no metadata specific to multibags (%s)" % (k,))
    ctx.check(ctx.text_of(dest + "/bagit.txt") == BAGIT, "the bag declaration is there")
    return bag


def run(ctx, case, **p):
    if case == "overlap":
        paths = ["data/a", "data/x/b", "meta/c"]
        members = []
        for n in ["m", "k", "h"]:
            members.append({"name": n, "files": [(x, n + x, len(n) + len(x)) for x in paths if ctx.flag(n + x)],
                            "tagman": tuple(p["tagman"])})
        if ["data/a" in [f[0] for f in m["files"]] for m in members][1:] == [True, True]:
            ctx.cover("override")
        if p["tagman"]:
            ctx.cover("tag manifest")
        if p["inplace"]:
            ctx.cover("in place")
        finish(ctx, Agg(ctx, ctx.path("in"), members), p["inplace"])
    elif case == "algs":
        members = []
        for n in ["m", "k", "h"]:
            algs = ctx.choice("alg" + n, ALGS)
            files = [("data/" + n, n, 1)]
            if n == "m" or ctx.flag("has" + n):
                files.append(("data/a", n + "a", 2 + len(algs)))
            members.append({"name": n, "files": files, "algs": algs, "tagman": tuple(p["tagman"])})
        if members[0]["algs"] != members[2]["algs"]:
            ctx.cover("mixed algorithms")
        deleted = ["data/m"] if ctx.flag("del") else []
        if deleted:
            ctx.cover("deleted")
        finish(ctx, Agg(ctx, ctx.path("in"), members, deleted), ctx.flag("inplace"))
    elif case == "tagdir":
        td = ctx.choice("td", ["multibag", "mb", "multibag2", "meta", "mb/tags"])
        if td != "multibag":
            ctx.cover("other tag directory")
        ai = ctx.choice("ai", [None, "Contact-Name: me\nMultibag-Version: 0.3\nBag-Size: 3 GB\n"])
        members = [{"name": "m", "files": [("data/a", "a", 3)]},
                   {"name": "h", "files": [("data/b", "b", 4)], "info": [("Contact-Name", "head"), ("Multibag-Head-Deprecates", "0.9")],
                    "form": ctx.choice("form", ["dir", "zip"])}]
        agg = Agg(ctx, ctx.path("in"), members, tagdir=td, agginfo=ai, settag=td != "multibag" or ctx.flag("set"))
        bag = finish(ctx, agg, members[1]["form"] == "dir" and ctx.flag("inplace"))
        if ai:
            ctx.cover("aggregation info")
        ctx.check(bag.info.get("Contact-Name") == ("me" if ai else "head"), "the metadata are the recorded ones")
    elif case == "info":
        v1 = ctx.text("v1", 1, p["k"], "a: #")
        v2 = ctx.text("v2", 1, 1, "ab")
        ctx.assume(v1 == v1.strip() and v1 != "")
        rep = ctx.flag("rep")
        items = [("X-Note", v1), ("Contact-Name", "c" + v2)]
        if rep:
            items.append(("X-Note", "z" + v1))
        hinfo = [("Contact-Name", "head"), ("X-Head", "h"), ("Multibag-Head-Deprecates", "a,b"), ("Multibag-Reference", "http://r"),
                 ("Multibag-Rebagging-Date", "2000-01-01")]
        use = ctx.flag("agginfo")
        if use:
            extra = "Payload-Oxum: 999.9\nBag-Size: 3 GB\n" if ctx.flag("sizes") else ""
            agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 3)], "info": [("X-Mem", "m")]},
                                            {"name": "h", "files": [("data/b", "b", 4)], "info": hinfo}],
                      agginfo="".join(["%s: %s\n" % x for x in items]) + extra)
        else:
            agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 3)]},
                                            {"name": "h", "files": [("data/b", "b", 4)], "info": items + hinfo[1:]}])
        bag = finish(ctx, agg, ctx.flag("inplace"))
        want = [v1, "z" + v1] if rep else v1
        ctx.check(bag.info.get("X-Note") == want, "recorded metadata are kept")
        ctx.check(bag.info.get("Contact-Name") == "c" + v2, "recorded metadata are kept")
        ctx.check(bag.info.get("X-Head") == (None if use else "h"), "the metadata are the recorded ones")
        ctx.cover("remarks")
    elif case == "rich":
        # every file of the tree is in one to three of three members, which use different algorithms
        files = [[], [], []]
        rr = ctx.choice("r", [1, 2, 3, 4, 5, 6, 7])
        for i, f in enumerate(rich()):
            k = (i * 3 + rr) % 7 + 1
            for j in range(3):
                if k & (1 << j):
                    files[j].append(f if len(f) == 1 else (f[0], f[1] + "m%d" % j, f[2]))
        ai = ctx.choice("algs", [0, 1, 2])
        algs = [[("md5",), ("sha256",), ("md5", "sha256")], [("sha512",)] * 3, [("md5", "sha256"), ("md5",), ("sha1",)]][ai]
        tm = [[("md5",), ("sha256",), ("md5",)], [("sha1",)] * 3, [("md5",), (), ()]][(ai + rr) % 3]
        dels = [[], ["data/a", "data/x y/f g", "meta/m"]][rr % 2]
        if dels:
            ctx.cover("deleted")
        form = "dir" if p["form"] == "inplace" else p["form"]
        agg = Agg(ctx, ctx.path("in"), [{"name": n, "files": f, "form": form, "algs": a, "tagman": t} for n, f, a, t in zip(["z", "m", "h"], files, algs, tm)], dels)
        finish(ctx, agg, p["form"] == "inplace")
        dest = agg.head if p["form"] == "inplace" else ctx.path("o", "h")
        # tag files stay listed
        for a in ("md5", "sha1", "sha256"):
            got = [ln.split(None, 1)[1] for ln in lines_of(ctx, dest + "/tagmanifest-%s.txt" % a) or []]
            ctx.check(len(set(got)) == len(got), "a tag file is listed once")
            for f, m in agg.final():
                if not f.startswith("data/") and a in m["tagman"] and not f.startswith("multibag/"):
                    ctx.check(f in got, "the tag manifest lists %s" % (f,))
    elif case == "elements":
        # the metadata kept are exactly the recorded ones
        items = [("Contact-Name", "me"), ("X-Multibag-Version", "keep"), ("Multibagger", "keep"), ("multibag-version", "low"), ("Empty", ""), ("External-Identifier", "ark:/1/2"),
                 ("Twice", "b"), ("Twice", "a"), ("Internal-Sender-Description", "x # y"), ("Bag-Group-Identifier", "g"), ("Bag-Count", "1 of 2"), ("Z", "\u00e9"), ("Long", "w " * 60 + "end"),
                 ("Bagging-Date", "2001-01-01"), ("Bag-Software-Agent", "mine")]
        drop = ctx.choice("drop", list(range(len(items))))
        items = items[:drop] + items[drop + 1:]
        mb = [("Multibag-Version", "0.4"), ("Multibag-Reference", "http://r"), ("Multibag-Head-Version", "1"), ("Multibag-Head-Deprecates", "0"), ("Multibag-Source-Bag-Size", "3 GB"), ("Multibag-X", "y"), ("Multibag-", "z")]
        use = ctx.flag("agginfo")
        form = ctx.choice("form", ["dir", "zip", "inplace"])
        if use:
            ctx.cover("aggregation info")
            agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 3)], "info": [("X-Mem", "m")]},
                                            {"name": "h", "files": [("data/b", "b", 4)], "info": [("X-Head", "h")], "form": "zip" if form == "zip" else "dir"}],
                      agginfo="".join(["%s: %s\n" % x for x in items + mb]) + "Payload-Oxum: 999.9\nBag-Size: 3 GB\n")
        else:
            agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 3)], "info": [("X-Mem", "m")]},
                                            {"name": "h", "files": [("data/b", "b", 4)], "info": items + mb[4:], "form": "zip" if form == "zip" else "dir"}])
        bag = finish(ctx, agg, form == "inplace")
        exp = {}
        for k, v in items:
            exp.setdefault(k, []).append(v)
        got = {}
        for k, v in bag.info.items():
            if k not in ("Payload-Oxum", "Bag-Size"):
                got[k] = list(v) if isinstance(v, list) else [v]
        ctx.check(got == exp, "the metadata are exactly the recorded ones without those of multibags")
    elif case == "flags":
        # the parts of restoring that can be switched off
        from multibag.restore import BagRestorer
        from multibag.access.bagit import open_bag, Bag
        from multibag.access.multibag import HeadBag, ReadOnlyHeadBag, open_headbag
        form = ctx.choice("form", ["dir", "zip"])
        agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 3), ("data/c", "c", 9)]},
                                        {"name": "h", "files": [("data/b", "b", 4)], "info": [("Contact-Name", "head")], "form": form}], ["data/c"] if ctx.flag("del") else [])
        how = ctx.choice("how", ["path", "read-only", "writable"] if form == "dir" else ["path", "read-only"])
        head = agg.head
        if how == "read-only":
            head = open_headbag(agg.head, True) if form == "dir" else open_headbag(agg.head)
        elif how == "writable":
            head = HeadBag(agg.head)
        inplace = how == "writable" and ctx.flag("inplace")
        dest = agg.head if inplace else ctx.path("dest")
        before = ctx.snapshot(agg.head) if form == "dir" else None
        target = None if inplace else dest
        if not inplace and ctx.flag("bag"):
            # filling out an existing bag
            ctx.mkdir(dest + "/data")
            ctx.write(dest + "/bagit.txt", BAGIT)
            target = Bag(dest)
        sizes, tags = ctx.flag("sizes"), ctx.flag("tags")
        BagRestorer(head, target, ctx.path("in")).restore(sizes, tags)
        bag = open_bag(dest)
        snap = ctx.snapshot(dest)
        for f, m in agg.final():
            ctx.check(f in snap and snap[f][1] == agg.snaps[m["name"]][f][1], "file %s is restored" % (f,))
        agg.check_manifests(dest)
        if sizes:
            agg.check_oxum(dest, bag.info)
        if tags:
            ctx.check("multibag" not in snap, "the multibag tag directory is gone")
            ctx.check([k for k in bag.info if k.startswith("Multibag")] == [], "no metadata specific to multibags")
        else:
            ctx.check("multibag/member-bags.tsv" in snap and bag.info.get("Multibag-Head-Version") == "1.0", "multibag tags stay if asked for")
        ctx.check(bag.info.get("Contact-Name") == "head", "recorded metadata are kept")
        if not inplace and form == "dir":
            ctx.check(ctx.snapshot(agg.head) == before, "the head bag is not changed")
    else:
        mf = [("http://e.org/m1", "5", "data/f1")] if ctx.flag("m1") else []
        hf = [("http://e.org/h2", "5", "data/f1")] if ctx.flag("h1") else []
        malg, halg = ctx.choice("malg", ALGS), ctx.choice("halg", ALGS)
        if mf or hf:
            ctx.cover("fetchable")
        finish(ctx, Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 1)], "fetch": mf, "algs": malg},
                                              {"name": "h", "files": [("data/b", "b", 1)], "fetch": hf, "algs": halg}],
                        ["data/f1"] if ctx.flag("del") else []), ctx.flag("inplace"))
