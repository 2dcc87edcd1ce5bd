"""Multibag tag files survive writing and reading back."""
from harness.lib import mkbag
from harness.rich import rich

COVERS = ["blank in name", "hash in name", "line separator in name", "extra fields", "comment", "no location", "order", "other tag directory", "rich", "shorter", "longer"]
BOUNDS = {"quick": "a fixed tree of 66 files with unusual names looked up in, deleted from and spread over 14 bags with unusual names, in three orders, saved once or over longer or shorter lists; names, paths, locations, extra fields and comments of up to 5 (extra fields 3) symbolic characters (letters, blank, #, percent, vertical tab, file separator, next line, line separator, accented letter), 2-3 entries, 4 kinds of view",
          "thorough": "texts of up to 6 characters"}
OUTSIDE = "tabs, line feeds, carriage returns and byte-order marks inside fields; fields with surrounding white space or (except comments) starting with '# '; a last field that is empty or starts with #"
BUDGET = {"quick": 150, "thorough": 1500}
ALPHA = "a #%\x0b\x1c\x85\u2028\xe9"
SHORT = "a #\u2028"
BAGS = ["b", "B", "b b", ".b", "b.zip", "b#", "b # c", "b%20", "\xe9", "b,c", "bb", "b.mbag", "0", "\"q\""]
URLS = [None, "http://h/a b#c?d=e&f", "doi:10.1/A", "file:///x", "HTTP://H/", "a", "http://h/%20", "//h", "0", "-", "u" * 90]
REMARKS = [None, "c", "# c", "#", "c # d", "http://h", "0", "C c  d", "\xe9", "a\\b", "'"]
EXTRA = [[], ["i"], ["i", "j", "k"], ["0"], ["a # b"], ["i i", "i"], ["http://h"], ["%s"], ["", "x"], ["#1", "#2", "x"]]


def cases(tier):
    k = 6 if tier == "thorough" else 5
    return [("name", {"k": k}), ("fields", {"k": k - 1}), ("lookup", {"k": k}), ("deleted", {"k": k}), ("order", {}), ("rich", {}), ("again", {})]


def word(ctx, name, lo, hi, alpha=ALPHA):
    t = ctx.text(name, lo, hi, alpha)
    ctx.assume(t == t.strip())
    return t


def views(ctx, root, kinds=("rw", "ro", "open", "zip", "tgz")):
    """fresh views of the bag at root: writable, read-only, serialized"""
    from multibag.access.multibag import HeadBag, ReadOnlyHeadBag, open_headbag
    how = ctx.choice("view", list(kinds))
    if how == "rw":
        return HeadBag(root)
    if how == "ro":
        return ReadOnlyHeadBag(root)
    if how == "open":
        return open_headbag(root, True)
    ctx.archive(root + "." + how, "zip" if how == "zip" else "tar", root, root.split("/")[-1])
    return open_headbag(root + "." + how)


def check_members(ctx, got, exp):
    ctx.check(len(got) == len(exp), "as many members are read back as were set")
    for g, e in zip(got, exp):
        ctx.check(g.name == e[0], "the name is read back")
        ctx.check(g.uri == e[1], "the location is read back")
        ctx.check(g.comment == e[2], "the comment is read back")
        ctx.check(list(g.info) == e[3], "the extra information is read back")


def run(ctx, case, **p):
    from multibag.access.multibag import HeadBag, MemberInfo
    root = ctx.path("b", "hb")
    td = "multibag"
    info = [("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1")]
    if case == "order":
        td = ctx.choice("td", ["multibag", "mb", "meta/mb"])
        info.append(("Multibag-Tag-Directory", td))
        if td != "multibag":
            ctx.cover("other tag directory")
    mkbag(ctx, root, [("data/a", "a", 1)], info=info)
    hb = HeadBag(root)
    if case == "name":
        n = word(ctx, "n", 1, p["k"])
        ms = [(n, None, None, [])]
        if ctx.flag("second"):
            ms.append(("zz", "http://z", None, []))
        if " " in n:
            ctx.cover("blank in name")
        if "#" in n:
            ctx.cover("hash in name")
        if "\u2028" in n or "\x0b" in n:
            ctx.cover("line separator in name")
        hb.set_member_bags([MemberInfo(m[0], m[1], m[2], *m[3]) for m in ms])
        hb.save_member_bags()
        check_members(ctx, views(ctx, root).member_bags(), ms)
    elif case == "fields":
        k = p["k"]
        uri = None
        if ctx.flag("uri"):
            uri = word(ctx, "u", 1, k - 1, SHORT)
        else:
            ctx.cover("no location")
        items = []
        for i in range(ctx.choice("ni", [0, 1, 2])):
            items.append(word(ctx, "i%d" % i, 0, k - 1 if i == 0 else 2, SHORT))
        if items:
            ctx.cover("extra fields")
        comm = None
        if ctx.flag("comm"):
            comm = word(ctx, "c", 1, k - 1, SHORT)
            ctx.cover("comment")
        allf = ([uri] if uri is not None or items else []) + items
        for i, t in enumerate(allf):
            if t is None:
                continue
            # '# ' starts a comment, and so does a # in the last field; empty fields at the end are lost
            ctx.assume(not t.startswith("# "))
            if i == len(allf) - 1 and comm is None:
                ctx.assume(t != "" and not t.startswith("#"))
        how = ctx.choice("how", ["set", "add"])
        if how == "set":
            hb.set_member_bags([MemberInfo("m", uri, comm, *items)])
        else:
            hb.add_member_bag("m", uri, comm, items)
        hb.save_member_bags()
        check_members(ctx, views(ctx, root, ("rw", "zip")).member_bags(), [("m", uri, comm, items)])
    elif case == "lookup":
        f = word(ctx, "f", 1, p["k"])
        b = word(ctx, "b", 1, 2, SHORT)
        hb.add_file_lookup("data/zz", "zz")
        hb.add_file_lookup(f, b)
        hb.add_file_lookup("data/zy", "zz")
        hb.save_file_lookup()
        v = views(ctx, root)
        got = list(v.iter_file_lookup())
        ctx.check(len(got) == 3, "as many entries are read back as were set")
        ctx.check([x[0] for x in got] == ["data/zz", f, "data/zy"], "the paths are read back in order")
        ctx.check([x[1] for x in got] == ["zz", b, "zz"], "the bag names are read back in order")
        ctx.check(v.lookup_file(f) == b, "the lookup gives the bag")
        ctx.check(f in v.files_in_member(b), "the bag is reported to have the file")
    elif case == "rich":
        ctx.cover("rich")
        o = ctx.choice("o", [1, -1, 5])
        ms = [(b, URLS[i % len(URLS)], REMARKS[(i + ctx.choice("r", [0, 4])) % len(REMARKS)], EXTRA[i % len(EXTRA)]) for i, b in enumerate(BAGS)]
        if o == 5:
            ms = [ms[i * 5 % len(ms)] for i in range(len(ms))]
        elif o < 0:
            ms.reverse()
        lu = [(f[0], BAGS[i * 3 % len(BAGS)]) for i, f in enumerate(rich(dirs=False))]
        de = [f[0] for i, f in enumerate(rich()) if i % 3 == 0]
        if o < 0:
            lu.reverse()
            de.reverse()
        for m in ms:
            hb.add_member_bag(m[0], m[1], m[2], m[3])
        for f, b in lu:
            hb.add_file_lookup(f, b)
        for f in de:
            hb.set_deleted(f)
        hb.save_member_bags()
        hb.save_file_lookup()
        hb.save_deleted()
        v = views(ctx, root)
        check_members(ctx, v.member_bags(), ms)
        ctx.check(v.member_bag_names == [m[0] for m in ms], "the member names are read back in order")
        ctx.check(list(v.iter_file_lookup()) == lu, "the lookup is read back in order")
        for f, b in lu:
            ctx.check(v.lookup_file(f) == b, "each path is looked up")
        for b in BAGS:
            ctx.check(sorted(v.files_in_member(b)) == sorted(x[0] for x in lu if x[1] == b), "the files of each bag are reported")
        ctx.check(sorted(v.deleted_paths()) == sorted(de), "the deletions are read back")
    elif case == "again":
        # lists saved over longer or shorter ones
        k1 = ctx.choice("k1", [0, 1, 5])
        k2 = ctx.choice("k2", [0, 1, 5])
        if k1 > k2:
            ctx.cover("shorter")
        if k1 < k2:
            ctx.cover("longer")
        fresh = ctx.flag("fresh")
        for k in (k1, k2):
            if fresh:
                hb = HeadBag(root)
            old = list(hb.deleted_paths())
            hb.set_member_bags([MemberInfo(BAGS[i], URLS[i]) for i in range(k)])
            hb.clear_file_lookup()
            for d in old:
                hb.unset_deleted(d)
            for i in range(k):
                hb.add_file_lookup("data/%d" % (k - i), BAGS[i])
                hb.set_deleted("data/x%d" % i)
            hb.save_member_bags()
            hb.save_file_lookup()
            hb.save_deleted()
        v = views(ctx, root)
        check_members(ctx, v.member_bags(), [(BAGS[i], URLS[i], None, []) for i in range(k2)])
        if k2:      # (with nothing to look up there need not be a file)
            ctx.check(list(v.iter_file_lookup()) == [("data/%d" % (k2 - i), BAGS[i]) for i in range(k2)], "the lookup is read back in order")
        ctx.check(sorted(v.deleted_paths()) == ["data/x%d" % i for i in range(k2)], "the deletions are read back")
    elif case == "deleted":
        f = word(ctx, "f", 1, p["k"])
        hb.set_deleted("data/q")
        hb.set_deleted(f)
        hb.save_deleted()
        got = views(ctx, root).deleted_paths()
        ctx.check(len(got) == 2, "as many deletions are read back as were set")
        ctx.check("data/q" in got and f in got, "the deletions are read back")
    else:
        names = ["b", "a", "c d"]
        o = ctx.choice("o", [[0, 1, 2], [2, 1, 0], [1, 2, 0], [0, 0, 1]])
        ms = [(names[i], "u:%d" % j, "c%d" % j if j else None, []) for j, i in enumerate(o)]
        if len(set(o)) == 3:
            ctx.cover("order")
        hb.set_member_bags([MemberInfo(m[0], m[1], m[2], *m[3]) for m in ms])
        for j, i in enumerate(o):
            hb.add_file_lookup("data/%d" % j, names[i])
        hb.set_deleted("data/x y")
        hb.save_member_bags()
        hb.save_file_lookup()
        hb.save_deleted()
        v = views(ctx, root)
        check_members(ctx, v.member_bags(), ms)
        ctx.check([x[1] for x in v.iter_file_lookup()] == [names[i] for i in o], "the lookup is read back in order")
        ctx.check(v.deleted_paths() == ["data/x y"], "the deletions are read back")
        ctx.check(v.member_bag_names == [m[0] for m in ms], "the member names are read back in order")
