"""Tag-file lines are read as the multibag profile specifies."""
from harness.lib import mkbag
from harness.rich import rich
from harness.C11 import BAGS, URLS, REMARKS, EXTRA

COVERS = ["trailing blanks", "empty location", "comment", "tab in comment", "blank line", "crlf", "old profile", "repeated tag directory", "spaces around tab"]
BOUNDS = {"quick": "lists of 14 bags and 66 files with unusual names, with 8 profile versions; lines with symbolic fields of up to 3 characters (letter, blank, #), symbolic numbers of blanks around separators, all optional fields present or not, line terminators, blank lines; profile versions 0.2, 0.3 and 0.4; 3 kinds of view",
          "thorough": "fields of up to 4 characters"}
OUTSIDE = "a last field that starts with # but not with '# '; white space other than blanks around fields; lines the profile does not allow"
BUDGET = {"quick": 150, "thorough": 1500}


def cases(tier):
    k = 4 if tier == "thorough" else 3
    return [("member", {"k": k}), ("comment", {"k": k}), ("lookup", {"k": k}), ("deleted", {"k": k}), ("old", {"k": k}),
            ("files", {}), ("direct", {"k": k}), ("rich", {})]


def word(ctx, name, lo, hi, alpha="a #"):
    t = ctx.text(name, lo, hi, alpha)
    ctx.assume(t == t.strip())
    return t


def view(ctx, root, files, info, kinds=("rw", "ro", "zip")):
    from multibag.access.multibag import HeadBag, open_headbag
    mkbag(ctx, root, [("data/a", "a", 1)] + files, info=info)
    how = ctx.choice("view", kinds)
    if how == "rw":
        return HeadBag(root)
    if how == "ro":
        return open_headbag(root, True)
    ctx.archive(root + ".zip", "zip", root, "hb")
    return open_headbag(root + ".zip")


INFO = [("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1"), ("Multibag-Tag-Directory", "multibag")]


def eq(ctx, m, name, uri, comm, items):
    ctx.check(m.name == name, "the bag name is what precedes the first tab, without blanks around it")
    ctx.check(m.uri == uri, "the location is the second field or none")
    ctx.check(m.comment == comm, "the comment is the text of the field that starts with '# '")
    ctx.check(list(m.info) == items, "the extra fields are those between location and comment")


def member_line(ctx, k):
    """a line of a member list and its parts as the profile defines them"""
    name = word(ctx, "n", 1, k)
    sp = ctx.text("sp", 0, 1, " ")
    if sp != "":
        ctx.cover("trailing blanks")
    line = name + sp
    uri, items, comm = None, [], None
    ni = ctx.choice("ni", [0, 1, 2])
    u = ctx.choice("u", ["no", "yes"])
    if u == "yes":
        uri = word(ctx, "uri", 1, 1)
        line = line + "\t" + uri
    elif ni:
        ctx.cover("empty location")
        line = line + "\t"
    for i in range(ni):
        t = word(ctx, "i%d" % i, 0, k if i == 0 else 1)
        items.append(t)
        line = line + "\t" + t
    if ctx.flag("c"):
        comm = word(ctx, "c", 1, 1)
        ctx.cover("comment")
        line = line + "\t# " + comm
    allf = ([uri] if uri is not None or items else []) + items
    for i, t in enumerate(allf):
        if t is not None:
            ctx.assume(not t.startswith("# "))
            if i == len(allf) - 1 and comm is None:
                ctx.assume(t != "" and not t.startswith("#"))
    return line, name, uri, comm, items


def run(ctx, case, **p):
    from multibag.access import multibag as mb
    root = ctx.path("b", "hb")
    if case == "direct":
        line, name, uri, comm, items = member_line(ctx, p["k"])
        nl = ctx.choice("nl", ["", "\n", "\r\n"])
        eq(ctx, mb.MemberInfo.parse_line_03(line + nl), name, uri, comm, items)
    elif case == "member":
        line, name, uri, comm, items = member_line(ctx, 1)
        nl = ctx.choice("nl", ["\n", "\r\n"])
        if nl == "\r\n":
            ctx.cover("crlf")
        v = view(ctx, root, [("multibag/member-bags.tsv", "first\tu:1" + nl + line + nl + "last")], INFO, ("rw", "ro"))
        got = v.member_bags()
        ctx.check(len(got) == 3, "each line is one member")
        eq(ctx, got[0], "first", "u:1", None, [])
        eq(ctx, got[1], name, uri, comm, items)
        eq(ctx, got[2], "last", None, None, [])
    elif case == "comment":
        # everything after '# ' belongs to the comment, tabs included
        a = word(ctx, "a", 1, p["k"])
        b = word(ctx, "b", 1, p["k"])
        tab = ctx.flag("tab")
        if tab:
            ctx.cover("tab in comment")
        ctx.cover("comment")
        comm = a + "\t" + b if tab else a
        form = ctx.choice("form", ["n\t# ", "n\tu:1\t# ", "n\tu:1\ti\t# ", "n\t\ti\t# "])
        m = mb.MemberInfo.parse_line_03(form + comm + ctx.choice("nl", ["", "\n"]))
        eq(ctx, m, "n", "u:1" if "u:1" in form else None, comm, ["i"] if "\ti" in form else [])
    elif case == "lookup":
        f = word(ctx, "f", 1, p["k"])
        b = word(ctx, "b", 1, p["k"])
        s1 = ctx.text("s1", 0, 2, " ")
        s2 = ctx.text("s2", 0, 2, " ")
        nl = ctx.choice("nl", ["\n", "\r\n"])
        line = f + s1 + "\t" + s2 + b
        if s1 != "" or s2 != "":
            ctx.cover("spaces around tab")
        if ctx.flag("direct"):
            got = mb.parse_file_lookup_line_03(line + nl)
            ctx.check(got[0] == f, "the path has no blanks around it")
            ctx.check(got[1] == b, "the bag name has no blanks around it")
            return
        v = view(ctx, root, [("multibag/file-lookup.tsv", "data/1\tone" + nl + line + nl)], INFO, ("rw", "ro"))
        ctx.check(v.lookup_file(f) == b, "the path is looked up")
        ctx.check(v.lookup_file("data/1") == "one", "the first path is looked up")
        ctx.check(v.files_in_member(b) == [f], "the files of the bag are reported")
    elif case == "deleted":
        f = word(ctx, "f", 1, p["k"])
        s1 = ctx.text("s1", 0, 1, " \t")
        s2 = ctx.text("s2", 0, 1, " \t")
        nl = ctx.choice("nl", ["\n", "\r\n"])
        blank = ctx.choice("blank", ["", "   "])
        ctx.cover("blank line")
        v = view(ctx, root, [("multibag/deleted.txt", "data/1" + nl + blank + nl + s1 + f + s2 + nl)], INFO)
        got = v.deleted_paths()
        ctx.check(len(got) == 2, "each line that is not blank is one path")
        ctx.check("data/1" in got and f in got, "the paths are read without surrounding white space")
        ctx.check(list(v.iter_deleted()) == ["data/1", f], "the paths are read in order")
    elif case == "old":
        ctx.cover("old profile")
        vers = ctx.choice("vers", ["0.2", "0.3"])
        n = ctx.text("n", 1, p["k"], "a#")
        sp = " " + ctx.text("sp", 0, 1, " ")
        u = ctx.flag("u")
        info = [("Multibag-Version", vers)] + INFO[1:]
        if vers == "0.2":
            files = [("multibag/group-members.txt", "x\n\n" + n + (sp + "u:1" if u else "") + "\n"),
                     ("multibag/group-directory.txt", "data/f" + sp + n + "\n"),
                     ("multibag/member-bags.tsv", "wrong\n"), ("multibag/file-lookup.tsv", "data/f\twrong\n")]
        else:
            files = [("multibag/group-members.txt", "wrong\n"), ("multibag/group-directory.txt", "data/f wrong\n"),
                     ("multibag/member-bags.tsv", "x\n\n" + n + ("\tu:1" if u else "") + "\n"), ("multibag/file-lookup.tsv", "data/f\t" + n + "\n")]
        v = view(ctx, root, files, info)
        got = v.member_bags()
        ctx.check(len(got) == 2, "each line is one member")
        eq(ctx, got[1], n, "u:1" if u else None, None, [])
        ctx.check(v.lookup_file("data/f") == n, "the lookup of that profile version is used")
    elif case == "rich":
        vers = ctx.choice("vers", ["0.3", "0.4", "0.10", "1.0", "0.3.1", "0.2", "0.2.9", "0.1"])
        old = vers in ("0.2", "0.2.9", "0.1")
        nl = ctx.choice("nl", ["\n", "\r\n"])
        end = ctx.choice("end", ["", "nl", "blank"])
        sp = ctx.choice("sp", ["", " ", "   "])
        ms, lines = [], []
        for i, b in enumerate(BAGS):
            u, c, e = URLS[(i + 1) % len(URLS)], REMARKS[i % len(REMARKS)], EXTRA[(i * 3) % len(EXTRA)]
            if old:
                b, u, c, e = b.replace(" ", "_"), (u or "u:").replace(" ", "_"), None, []
                line = b + " " + sp + u
            else:
                line = b + sp
                if u or e:
                    line = line + "\t" + (u or "")
                for x in e:
                    line = line + "\t" + x
                if c:
                    line = line + "\t# " + c
            ms.append((b, u, c, e))
            lines.append(line)
        lu = [(f[0], ms[i % len(ms)][0]) for i, f in enumerate(rich(dirs=False)) if not old or " " not in f[0]]
        de = [f[0] for i, f in enumerate(rich()) if i % 2]

        def text(lines):
            return nl.join(lines) + {"": "", "nl": nl, "blank": nl + "  " + nl + nl}[end]
        files = [("multibag/" + ("group-members.txt" if old else "member-bags.tsv"), text(lines)),
                 ("multibag/" + ("group-directory.txt" if old else "file-lookup.tsv"), text([f + sp + (" " if old else "\t") + sp + b for f, b in lu])),
                 ("multibag/deleted.txt", text([sp + f + sp for f in de]))]
        v = view(ctx, root, files, [("Multibag-Version", vers)] + INFO[1:])
        got = v.member_bags()
        ctx.check(len(got) == len(ms), "each line is one member")
        for g, m in zip(got, ms):
            eq(ctx, g, m[0], m[1], m[2], m[3])
        ctx.check(list(v.iter_file_lookup()) == lu, "each line is one lookup")
        for f, b in lu:
            ctx.check(v.lookup_file(f) == b, "each path is looked up")
        ctx.check(list(v.iter_deleted()) == de, "each line is one deletion")
    else:
        # where the files are looked for; blank lines and missing files
        td = ctx.choice("td", ["multibag", "mb", "a/b"])
        info = INFO[:2]
        rep = False
        if td != "multibag" or ctx.flag("set"):
            rep = ctx.flag("rep")
            if rep:
                ctx.cover("repeated tag directory")
                info = info + [("Multibag-Tag-Directory", "other")]
            info = info + [("Multibag-Tag-Directory", td)]
        files = []
        if ctx.flag("m"):
            files.append((td + "/member-bags.tsv", "\n  \none\n\ntwo\n"))
        if ctx.flag("l"):
            files.append((td + "/file-lookup.tsv", "\ndata/a\tone\n \n"))
        if ctx.flag("d"):
            files.append((td + "/deleted.txt", "\n\ndata/d\n"))
        v = view(ctx, root, files, info)
        rw = isinstance(v, mb.HeadBag)
        ctx.check(v.multibag_tag_dir == td, "the tag directory is the last one given")
        for nm, key, fn, exp, none in (("m", "member-bags.tsv", lambda: v.member_bag_names, ["one", "two"], []),
                                       ("l", "file-lookup.tsv", lambda: v.lookup_file("data/a"), "one", None),
                                       ("d", "deleted.txt", lambda: v.deleted_paths(), ["data/d"], [])):
            have = td + "/" + key in [f[0] for f in files]
            try:
                got = fn()
                ctx.check(have or rw or nm == "d", "a missing file is reported")
                ctx.check(got == (exp if have else none), "the content is read")
            except mb.MissingMultibagFileError:
                ctx.check(not have and not rw and nm != "d", "an error only for a missing file")
