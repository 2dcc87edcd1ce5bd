"""Head-bag edits behave like edits of lists and maps."""
from harness.lib import mkbag
from harness.rich import rich
from harness.C11 import BAGS, URLS, REMARKS, EXTRA

COVERS = ["override", "removed", "saved", "reopened", "unsaved dropped", "moved tag directory", "deletion kept", "lookup cleared", "rich", "whole bag"]
BOUNDS = {"quick": "lists of 14 bags and 66 files with unusual names, any of which is added, overridden, looked up elsewhere, removed, deleted or not; every sequence of 3 operations out of 18 (over two bag names and two paths) on a head bag with or without tag files, with or without reading first; all sequences of 2 operations for updates from a member bag with any include and exclude lists",
          "thorough": "every sequence of 4 operations"}
OUTSIDE = "longer sequences; changing the tag directory without moving it; profile versions before 0.3"
BUDGET = {"quick": 150, "thorough": 2400}

OPS = ["add m", "add n", "addno m", "addinfo m", "rm m", "rm n", "set", "lu f m", "lu f n", "lu g n", "rmlu f", "clear",
       "del f", "del g", "undel f", "save", "reopen", "savelu", "tagdir"]

ODD = ["add", "addno", "rm", "lu", "lunew", "rmlu", "del", "undel", "tagdir", "reopen"]


def cases(tier):
    t = tier == "thorough"
    out = []
    for i in range(len(OPS)):
        out.append(("seq", {"first": i, "n": 3 if t else 2}))
    out.append(("member", {}))
    out.append(("member2", {}))
    out += [("odd", {"op": o}) for o in ODD]
    out.append(("richmember", {}))
    return out


class Model(object):
    """the plain list, map and set; saved is what is on disk"""

    def __init__(self, members, lookup, deleted):
        self.m, self.l, self.d = members, lookup, deleted
        self.saved = [list(members), list(lookup), list(deleted)]

    def rm(self, name):
        self.m = [x for x in self.m if x[0] != name]
        gone = [x[0] for x in self.l if x[1] == name]
        self.l = [x for x in self.l if x[1] != name]
        self.d = [x for x in self.d if x not in gone]

    def lu(self, f, b):
        if f in [x[0] for x in self.l]:
            self.l = [(x[0], b if x[0] == f else x[1]) for x in self.l]
        else:
            self.l = self.l + [(f, b)]


def check(ctx, hb, m, what):
    got = [(x.name, x.uri, x.comment, list(x.info)) for x in hb.member_bags()]
    ctx.check(got == m.m, what + ": the member list is that of the list")
    for f in ("data/f", "data/g", "data/o", "data/none"):
        e = [x[1] for x in m.l if x[0] == f]
        ctx.check(hb.lookup_file(f) == (e[0] if e else None), what + ": the lookup of %s is that of the map" % f)
    for b in ("m", "n", "o"):
        ctx.check(hb.files_in_member(b) == [x[0] for x in m.l if x[1] == b], what + ": the files of a member are those of the map")
    ctx.check(sorted(hb.deleted_paths()) == sorted(m.d), what + ": the deletions are those of the set")


def on_disk(ctx, m, root, td):
    """what a fresh view of the bag gives is what was saved last"""
    from multibag.access.multibag import HeadBag
    hb = HeadBag(root)
    hb.info["Multibag-Tag-Directory"] = td
    s = Model(m.saved[0], m.saved[1], m.saved[2])
    check(ctx, hb, s, "on disk")


def step(ctx, hb, m, op, root, td):
    from multibag.access.multibag import HeadBag, MemberInfo
    w = op.split(" ")
    if w[0] == "add":
        if w[1] in [x[0] for x in m.m]:
            ctx.cover("override")
        hb.add_member_bag(w[1], "u:" + w[1])
        m.rm(w[1])
        m.m = m.m + [(w[1], "u:" + w[1], None, [])]
    elif w[0] == "addno":
        hb.add_member_bag(w[1], override=False)
        m.m = m.m + [(w[1], None, None, [])]
    elif w[0] == "addinfo":
        hb.add_member_bag(w[1], None, "c c", ["i", "j"])
        m.rm(w[1])
        m.m = m.m + [(w[1], None, "c c", ["i", "j"])]
    elif w[0] == "rm":
        if w[1] in [x[0] for x in m.m]:
            ctx.cover("removed")
        hb.remove_member_bag(w[1])
        m.rm(w[1])
    elif w[0] == "set":
        given = [MemberInfo("n"), MemberInfo("m", "u:2")]
        hb.set_member_bags(given)
        given.append(MemberInfo("zz"))
        m.m = [("n", None, None, []), ("m", "u:2", None, [])]
    elif w[0] == "lu":
        hb.add_file_lookup("data/" + w[1], w[2])
        m.lu("data/" + w[1], w[2])
    elif w[0] == "rmlu":
        hb.remove_file_lookup("data/" + w[1])
        m.l = [x for x in m.l if x[0] != "data/" + w[1]]
    elif w[0] == "clear":
        # documented to act on the file at once
        ctx.cover("lookup cleared")
        hb.clear_file_lookup()
        m.l = []
        m.saved[1] = []
    elif w[0] == "del":
        hb.set_deleted("data/" + w[1])
        if "data/" + w[1] not in m.d:
            m.d = m.d + ["data/" + w[1]]
        if "data/o" in m.d:
            ctx.cover("deletion kept")
    elif w[0] == "undel":
        hb.unset_deleted("data/" + w[1])
        m.d = [x for x in m.d if x != "data/" + w[1]]
    elif w[0] == "save":
        ctx.cover("saved")
        hb.save_member_bags()
        hb.save_file_lookup()
        hb.save_deleted()
        m.saved = [list(m.m), list(m.l), list(m.d)]
    elif w[0] == "savelu":
        hb.save_file_lookup()
        m.saved[1] = list(m.l)
    elif w[0] == "reopen":
        ctx.cover("reopened")
        if m.saved[0] != m.m:
            ctx.cover("unsaved dropped")
        hb = HeadBag(root)
        hb.info["Multibag-Tag-Directory"] = td
        m.m, m.l, m.d = list(m.saved[0]), list(m.saved[1]), list(m.saved[2])
    elif w[0] == "tagdir":
        nd = "mb" if td == "multibag" else "multibag"
        ctx.cover("moved tag directory")
        hb.set_multibag_tag_dir(nd, True)
        ctx.check(hb.multibag_tag_dir == nd, "the tag directory is changed")
        td = nd
    return hb, td


def run(ctx, case, **p):
    from multibag.access.multibag import HeadBag, open_headbag
    root = ctx.path("b", "hb")
    info = [("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1"), ("Multibag-Tag-Directory", "multibag")]
    if case == "seq":
        files = [("data/f", "f", 1)]
        m = Model([], [], [])
        if ctx.flag("tags"):
            files += [("multibag/member-bags.tsv", "o\tu:o\nm\t\ti\t# c\n"), ("multibag/file-lookup.tsv", "data/o\to\ndata/f\tm\n"),
                      ("multibag/deleted.txt", "data/o\ndata/f\n")]
            m = Model([("o", "u:o", None, []), ("m", None, "c", ["i"])], [("data/o", "o"), ("data/f", "m")], ["data/o", "data/f"])
        mkbag(ctx, root, files, info=info)
        hb = HeadBag(root)
        td = "multibag"
        if ctx.flag("read"):
            check(ctx, hb, m, "at first")
        hb, td = step(ctx, hb, m, OPS[p["first"]], root, td)
        for i in range(p["n"]):
            hb, td = step(ctx, hb, m, OPS[ctx.choice("op%d" % i, list(range(len(OPS))))], root, td)
        on_disk(ctx, m, root, td)
        check(ctx, hb, m, "in the end")
        hb, td = step(ctx, hb, m, "save", root, td)
        on_disk(ctx, m, root, td)
    elif case == "odd":
        # one edit of long lists with unusual names
        ctx.cover("rich")
        root = ctx.path("b", "h:b #1")
        m = Model([(b, URLS[i % len(URLS)], REMARKS[(i * 2) % len(REMARKS)], EXTRA[i % len(EXTRA)]) for i, b in enumerate(BAGS)],
                  [(f[0], BAGS[i % len(BAGS)]) for i, f in enumerate(rich(dirs=False))],
                  [f[0] for i, f in enumerate(rich()) if i % 2])
        mkbag(ctx, root, [("data/f", "f", 1)], info=info)
        hb = HeadBag(root)
        from multibag.access.multibag import MemberInfo
        hb.set_member_bags([MemberInfo(x[0], x[1], x[2], *x[3]) for x in m.m])
        for f, b in m.l:
            hb.add_file_lookup(f, b)
        for f in m.d:
            hb.set_deleted(f)
        if ctx.flag("fresh"):
            hb.save_member_bags()
            hb.save_file_lookup()
            hb.save_deleted()
            hb = HeadBag(root)
        op = p["op"]
        paths = [f[0] for f in rich()]
        if op in ("add", "addno", "rm"):
            b = BAGS[ctx.choice("b", list(range(len(BAGS))))]
            if op == "rm":
                hb.remove_member_bag(b)
                m.rm(b)
            elif op == "add":
                hb.add_member_bag(b, "u:new")
                m.rm(b)
                m.m = m.m + [(b, "u:new", None, [])]
            else:
                hb.add_member_bag(b, "u:new", override=False)
                m.m = m.m + [(b, "u:new", None, [])]
        elif op in ("tagdir", "reopen"):
            hb.save_member_bags()
            hb.save_file_lookup()
            hb.save_deleted()
            if op == "tagdir":
                hb.set_multibag_tag_dir(ctx.choice("td", ["mb", "multibag2", "a/b", "Multibag"]), True)
                hb.save()
            hb = HeadBag(root)
        elif op == "lunew":
            f = ctx.choice("f", ["data/new", "data/a.txt2", "data/X", "DATA/a", "data", "about", "data/x/y"])
            hb.add_file_lookup(f, "b")
            m.lu(f, "b")
        else:
            f = paths[ctx.choice("f", list(range(len(paths))))]
            if op == "lu":
                hb.add_file_lookup(f, "b c")
                m.lu(f, "b c")
            elif op == "rmlu":
                hb.remove_file_lookup(f)
                m.l = [x for x in m.l if x[0] != f]
            elif op == "del":
                hb.set_deleted(f)
                m.d = m.d if f in m.d else m.d + [f]
            else:
                hb.unset_deleted(f)
                m.d = [x for x in m.d if x != f]

        def same(hb, what):
            ctx.check([(x.name, x.uri, x.comment, list(x.info)) for x in hb.member_bags()] == m.m, what + ": the members are those of the list")
            for q in paths:
                e = [x[1] for x in m.l if x[0] == q]
                ctx.check(hb.lookup_file(q) == (e[0] if e else None), what + ": the lookup is that of the map")
            for b in BAGS + ["b c"]:
                ctx.check(hb.files_in_member(b) == [x[0] for x in m.l if x[1] == b], what + ": the files of a member are those of the map")
            ctx.check(sorted(hb.deleted_paths()) == sorted(m.d), what + ": the deletions are those of the set")
        same(hb, "in the end")
        hb.save_member_bags()
        hb.save_file_lookup()
        hb.save_deleted()
        ro = ctx.flag("ro")
        v = open_headbag(root, ro)
        same(v, "saved")
        if not ro:
            v.add_member_bag("last", "u:last")
            v.save_member_bags()
            ctx.check([x.name for x in HeadBag(root).member_bags()] == [x[0] for x in m.m] + ["last"], "a bag opened for updates can be edited and saved")
        ctx.check(list(v.iter_file_lookup()) == m.l, "the lookup is in order")
    elif case == "richmember":
        # registering all files of a member bag with unusual names
        mkbag(ctx, root, [("data/f", "f", 1), ("multibag/file-lookup.tsv", "data/a\to\ndata/nn\to\ndata/zz\to\n"), ("multibag/member-bags.tsv", "o\nhb\n")], info=info)
        name = BAGS[ctx.choice("name", list(range(len(BAGS))))]
        mem = ctx.path("b", "sub", name)
        rf = rich()
        mkbag(ctx, mem, rf)
        hb = HeadBag(root)
        from multibag.access.bagit import Bag, open_bag
        form = ctx.choice("form", ["rw", "ro", "zip"])
        if form == "zip":
            ctx.archive(ctx.path("b", "m.zip"), "zip", mem, name)
            bag = open_bag(ctx.path("b", "m.zip"))
        else:
            bag = Bag(mem) if form == "rw" else open_bag(mem)
        i = ctx.choice("i", [-2, -1] + list(range(0, len(rf), 1 if p.get("all") else 5)))
        exc = None
        exp = [("data/a", "o"), ("data/nn", "o"), ("data/zz", "o")]
        if i == -2:
            hb.update_for_member(bag)
            want = [f[0] for f in rf if f[0].startswith("data/") and len(f) > 1]
        elif i == -1:
            ctx.cover("whole bag")
            exc = ["data/x", "meta", "about.txt", "bagit.txt", "bag-info.txt", "manifest-sha256.txt"]
            hb.update_for_member(bag, ["data", "meta", "database", "."], exc)
            want = [f[0] for f in rf if len(f) > 1 and f[0] not in exc and not f[0].startswith("data/x/") and not f[0].startswith("meta/")]
        else:
            f = rf[i][0]
            hb.update_for_member(bag, [f], ["data/zz"])
            want = [f] if len(rf[i]) > 1 else []
        for f in want:
            if f == "data/a":
                exp[0] = ("data/a", name)
        hb.save_file_lookup()
        hb.save_member_bags()
        v = open_headbag(root, True)
        got = list(v.iter_file_lookup())
        ctx.check(got[:3] == exp, "earlier entries stay where they were")
        ctx.check(sorted(got[3:]) == sorted((f, name) for f in want if f != "data/a"), "exactly the included and not excluded files are registered")
        ctx.check(v.member_bag_names == ["o", "hb", name], "the bag is made a member")
    elif case == "member":
        # registering the files of a member bag
        mkbag(ctx, root, [("data/f", "f", 1), ("multibag/file-lookup.tsv", "data/o\to\ndata/a\to\n")], info=info)
        mem = ctx.path("b", "mem")
        files = ["data/a", "data/x/b", "data/x/y/c", "meta/d", "about.txt"]
        mkbag(ctx, mem, [(f, f, 1) for f in files])
        inc = ctx.choice("inc", [None, ["data"], "data/x", ["data/x", "meta/d"], ["data/a", "nowhere"], ["meta"], ["data/x/y/c", "about.txt"], ["./data//x/", "data/../meta"], ["."]])
        exc = ctx.choice("exc", [None, ["data/x"], ["data/a"], "data/a", ["data/x/y"], ["data/x/b", "meta/d"], ["data"], ["data/x/", "./about.txt"]])
        hb = HeadBag(root)
        form = ctx.choice("form", ["path", "ro", "zip"])
        from multibag.access.bagit import Bag, open_bag
        if form == "zip":
            ctx.archive(mem + ".zip", "zip", mem, "mem")
            bag = open_bag(mem + ".zip")
        else:
            bag = Bag(mem) if form == "path" else open_bag(mem)
        mk = ctx.flag("mk")
        nm = ctx.choice("nm", [None, "other"])
        hb.update_for_member(bag, inc, exc, mk, nm)
        clean = {"./data//x/": "data/x", "data/../meta": "meta", ".": "", "data/x/": "data/x", "./about.txt": "about.txt"}
        il = [clean.get(i, i) for i in ([inc] if isinstance(inc, str) else (inc or ["data"]))]
        el = [clean.get(i, i) for i in ([exc] if isinstance(exc, str) else (exc or []))]
        files = files + ["bagit.txt", "bag-info.txt", "manifest-sha256.txt"]
        name = nm or "mem"
        exp = {"data/o": "o", "data/a": "o"}
        for i in il:
            if i in el:
                continue
            for f in files:
                under = i == "" or f.startswith(i + "/")
                out = f in el or len([e for e in el if f.startswith(e + "/") and (e == i or i == "" or e.startswith(i + "/"))]) > 0
                if f == i or (under and not out):
                    exp[f] = name
        hb.save_file_lookup()
        hb.save_member_bags()
        v = open_headbag(root, True)
        got = dict(v.iter_file_lookup())
        ctx.check(got == exp, "exactly the included and not excluded files are registered")
        ctx.check(HeadBag(root).member_bag_names == ([name] if mk else []), "the bag is made a member only if asked for")
    else:
        # two registrations: the later one wins for the files both have
        mkbag(ctx, root, [("data/f", "f", 1)], info=info)
        exp = {}
        hb = HeadBag(root)
        from multibag.access.bagit import Bag
        for n in ("k", "l"):
            have = [f for f in ["data/a", "data/x/b"] if ctx.flag(n + f)]
            mkbag(ctx, ctx.path("b", n), [(f, n + f, 1) for f in have])
            hb.update_for_member(Bag(ctx.path("b", n)))
            for f in have:
                exp[f] = n
        again = ctx.flag("again")
        if again:
            hb.update_for_member(Bag(ctx.path("b", "k")))
            for f in ["data/a", "data/x/b"]:
                if ctx.exists(ctx.path("b", "k") + "/" + f):
                    exp[f] = "k"
        if not exp:
            return
        hb.save_file_lookup()
        hb.save_member_bags()
        v = open_headbag(root, True)
        ctx.check(dict(v.iter_file_lookup()) == exp, "the later registration wins")
        ctx.check(v.member_bag_names == (["l", "k"] if again else ["k", "l"]), "the members are in order of registration")
