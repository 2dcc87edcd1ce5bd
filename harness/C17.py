"""Bag and member validation accept exactly intact bags."""
from harness.lib import mkbag, lines_of, BAGIT
from harness.rich import rich

COVERS = ["intact", "payload altered", "payload lost", "payload added", "tag file altered", "tag file lost", "totals disagree", "malformed totals",
          "no manifest", "no version", "head bag", "not a head bag", "bad name", "serialized", "strict form", "earlier results kept"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names, intact or any one file altered, lost or unlisted; two payload files of any size and two tag files, each state (intact, altered, lost, unlisted); recorded totals any numbers or malformed; bag names of up to 3 characters from a set with white space; all combinations of multibag metadata; directory, zip and tar",
          "thorough": "names of up to 4 characters; all forms in every case"}
OUTSIDE = "unreadable files; bags that cannot be opened at all; the profile version 0.2"
BUDGET = {"quick": 150, "thorough": 1500}


def cases(tier):
    t = tier == "thorough"
    out = []
    for v in ("bag", "member", "head"):
        for form in (("dir", "zip", "tar") if t or v == "bag" else ("dir",)):
            out.append(("content", {"v": v, "form": form}))
    out.append(("oxum", {"v": "bag"}))
    out.append(("oxum", {"v": "member"}))
    out.append(("structure", {}))
    out.append(("nonhead", {}))
    for v in ("bag", "member", "head"):
        out.append(("rich", {"v": v}))
    out.append(("name", {"k": 4 if t else 3}))
    return out


def wrong():
    return "0" * 64


def judge(ctx, path, v):
    """the outcomes as {label: passed}, after checking that all ways of asking agree"""
    from multibag.validate.bag import BagValidator
    from multibag.validate.member import MemberBagValidator
    from multibag.validate import member as membermod
    from multibag.validate import headbag as headmod
    from multibag.validate.headbag import HeadBagValidator
    from multibag.validate.base import ALL, ERROR, WARN, REC, PROB, MultibagValidationError
    cls = {"bag": BagValidator, "member": MemberBagValidator, "head": HeadBagValidator}[v]
    res = cls(path).validate(ALL)
    bad = sorted([i.label for i in res.failed(ERROR)])
    ctx.check(cls(path).is_valid(ERROR) == (not bad), "is_valid agrees with the results")
    raised = False
    try:
        if v == "member":
            membermod.validate(path, ERROR)
        elif v == "head":
            headmod.validate(path, ERROR)
        else:
            cls(path).ensure_valid(ERROR)
    except MultibagValidationError:
        raised = True
    ctx.check(raised == bool(bad), "the strict form raises precisely if there are errors")
    ctx.cover("strict form")
    return res


def errors(res):
    from multibag.validate.base import ERROR
    return sorted([i.label for i in res.failed(ERROR)])


def pack(ctx, root, form, name="b"):
    if form == "dir":
        return root
    ctx.cover("serialized")
    ctx.archive(root + "." + form, form, root, name)
    ctx.rmtree(root)
    return root + "." + form


def build(ctx, root, v, extra=()):
    info = [("Source-Organization", "x")]
    files = [("data/a", "a", ctx.int("sa", 0, 10 ** 6)), ("data/d/b", "b", ctx.int("sb", 0, 10 ** 6)), ("meta/t", "t", 2), ("u", "u", 2)]
    if v != "bag":
        info.append(("Multibag-Version", "0.4"))
    if v == "head":
        info = info + [("Multibag-Head-Version", "1"), ("Multibag-Tag-Directory", "multibag")]
        files = files + [("multibag/member-bags.tsv", "b\n"), ("multibag/file-lookup.tsv", "data/a\tb\ndata/d/b\tb\n")]
    mkbag(ctx, root, files, ("sha256",), info + list(extra), ("sha256",))


def run(ctx, case, **p):
    root = ctx.path("s", "b")
    if case == "content":
        v = p["v"]
        build(ctx, root, v)
        good = True
        man = ctx.text_of(root + "/manifest-sha256.txt")
        tman = ctx.text_of(root + "/tagmanifest-sha256.txt")
        lines = [ln for ln in man.split("\n") if ln]
        tlines = [ln for ln in tman.split("\n") if ln]
        sa, sb = ctx.size_of(root + "/data/a"), ctx.size_of(root + "/data/d/b")
        for f in ("data/a", "data/d/b"):
            st = ctx.choice(f, ["intact", "altered", "truncated", "lost", "unlisted", "same"])
            if st == "altered":
                ctx.blob(root + "/" + f, "other" + f, ctx.size_of(root + "/" + f))
                # two files of no bytes are the same
                good = ctx.And(good, (sa if f == "data/a" else sb) == 0)
                ctx.cover("payload altered")
            elif st == "truncated":
                n = ctx.int("new" + f, 0, 10 ** 6)
                ctx.assume(n != (sa if f == "data/a" else sb))
                ctx.blob(root + "/" + f, f[-1:], n)
                good = False
            elif st == "lost":
                ctx.remove(root + "/" + f)
                good = False
                ctx.cover("payload lost")
            elif st == "unlisted":
                lines = [ln for ln in lines if not ln.endswith("  " + f)]
                good = False
                ctx.cover("payload added")
            elif st == "same":
                ctx.blob(root + "/" + f, f[-1:], ctx.size_of(root + "/" + f))
        for f in ("meta/t", "bag-info.txt"):
            st = ctx.choice(f, ["intact", "altered", "lost", "unlisted"])
            if st == "altered":
                tlines = [(wrong() + "  " + f if ln.endswith("  " + f) else ln) for ln in tlines]
                good = False
                ctx.cover("tag file altered")
            elif st == "lost":
                if f == "bag-info.txt":
                    # the metadata decide which other tests apply
                    ctx.assume(v == "bag")
                ctx.remove(root + "/" + f)
                good = False
                ctx.cover("tag file lost")
            elif st == "unlisted":
                tlines = [ln for ln in tlines if not ln.endswith("  " + f)]
        mtext = "".join([ln + "\n" for ln in lines])
        if mtext != man:
            ctx.write(root + "/manifest-sha256.txt", mtext)
            tlines = [ln for ln in tlines if not ln.endswith("  manifest-sha256.txt")]
        ctx.write(root + "/tagmanifest-sha256.txt", "".join([ln + "\n" for ln in tlines]))
        path = pack(ctx, root, p["form"])
        res = judge(ctx, path, v)
        if good:
            ctx.cover("intact")
            ctx.check("2-Bag" not in errors(res), "no error for an intact bag")
        else:
            ctx.check("2-Bag" in errors(res), "an error is reported if anything listed was altered, lost or added")
        if v != "head":
            ctx.check([x for x in errors(res) if x != "2-Bag"] == [], "no other error is reported")
        ctx.check([i.label for i in res.passed()].count("2-Bag") + [i.label for i in res.failed()].count("2-Bag") == 1, "the test for validity as a bag is reported once")
    elif case == "oxum":
        kind = ctx.choice("kind", ["num", "nodot", "empty", "letters", "neg", "twodots", "repeated", "blank", "none"])
        build(ctx, root, p["v"])
        sa, sb = ctx.size_of(root + "/data/a"), ctx.size_of(root + "/data/d/b")
        text = "Source-Organization: x\n" + ("Multibag-Version: 0.4\n" if p["v"] == "member" else "")
        good = False
        if kind in ("num", "repeated"):
            k = ctx.int("k", 0, 3 * 10 ** 6)
            m = ctx.int("m", 0, 4)
            good = ctx.flag("good")
            ctx.assume(good == ctx.And(k == sa + sb, m == 2))
            text = text + "Payload-Oxum: %s.%s\n" % (k, m)
            if kind == "repeated":
                text = text + "Payload-Oxum: 3.1\n"
            if not good:
                ctx.cover("totals disagree")
        elif kind == "none":
            good = True
        else:
            ctx.cover("malformed totals")
            text = text + "Payload-Oxum: " + {"nodot": "12", "empty": "", "letters": "a.b", "neg": "-1.2", "twodots": "1.2.3", "blank": "1 . 2"}[kind] + "\n"
        ctx.write(root + "/bag-info.txt", text)
        ctx.remove(root + "/tagmanifest-sha256.txt")
        res = judge(ctx, pack(ctx, root, ctx.choice("form", ["dir", "zip"])), p["v"])
        ctx.check(("2-Bag" in errors(res)) == (not good), "an error is reported precisely if the recorded totals disagree or are malformed")
    elif case == "rich":
        # a tree with unusual names, one of its files altered, lost or not listed
        files = rich()
        v = p["v"]
        info = [("Source-Organization", "x")] + ([("Multibag-Version", "0.4")] if v != "bag" else [])
        if v == "head":
            info += [("Multibag-Head-Version", "1"), ("Multibag-Tag-Directory", "multibag")]
            files = files + [("multibag/member-bags.tsv", "b\n"), ("multibag/file-lookup.tsv", "".join([f[0] + "\tb\n" for f in files if f[0].startswith("data/") and len(f) == 3]))]
        names = [f[0] for f in files if len(f) == 3 and f[0] != "data/0"]
        if ctx.flag("plain"):
            # one kind of manifest each, and no totals
            mkbag(ctx, root, files, ("sha512",), info, ("md5",), oxum=False)
            names = ["data/a", "about.txt", "data/x/y/z", "data/.hidden"]
        else:
            mkbag(ctx, root, files, ("md5", "sha256"), info, ("sha1",))
        f = ctx.choice("file", [None] + names)
        form = "dir"
        good = f is None
        if f is None:
            form = ctx.choice("form", ["dir", "zip", "tar"])
        else:
            what = ctx.choice("what", ["altered", "lost", "unlisted"])
            if what == "altered":
                ctx.blob(root + "/" + f, "other", ctx.size_of(root + "/" + f))
            elif what == "lost":
                ctx.remove(root + "/" + f)
            else:
                for m in [x for x in ("manifest-md5.txt", "manifest-sha256.txt", "tagmanifest-sha1.txt", "manifest-sha512.txt", "tagmanifest-md5.txt") if ctx.exists(root + "/" + x)]:
                    ctx.write(root + "/" + m, "".join([ln + "\n" for ln in lines_of(ctx, root + "/" + m) if not (ln.endswith(" " + f) or ln.endswith("  manifest-md5.txt") or ln.endswith("  manifest-sha512.txt") or ln.endswith("manifest-sha256.txt") and "data/" not in ln)]))
                good = not f.startswith("data/")
            form = ["dir", "zip", "tar"][len(f) % 3]
        res = judge(ctx, pack(ctx, root, form), v)
        ctx.check(("2-Bag" in errors(res)) == (not good), "an error is reported precisely if something listed was altered, lost or added (%s)" % (f,))
        if good:
            ctx.check(errors(res) == [], "no error for an intact bag")
    elif case == "structure":
        v = ctx.choice("v", ["bag", "member"])
        build(ctx, root, v)
        good = True
        ctx.remove(root + "/tagmanifest-sha256.txt")
        if ctx.flag("no manifest"):
            ctx.remove(root + "/manifest-sha256.txt")
            ctx.cover("no manifest")
            good = False
        d = ctx.choice("data", ["dir", "none", "empty"])
        if d != "dir":
            ctx.rmtree(root + "/data")
            good = False
        if d == "empty":
            ctx.mkdir(root + "/data")
        f = ctx.choice("fetch", [None, "http://x.org/a 1 data/a\n", "data/a 1 data/a\n", "http://x.org/a 1 ../a\n", "\n", "http://x.org/a\n"])
        if f is not None:
            ctx.write(root + "/fetch.txt", f)
            good = good and f in ("http://x.org/a 1 data/a\n", "\n")
        res = judge(ctx, pack(ctx, root, ctx.choice("form", ["dir", "zip"])), v)
        ctx.check(("2-Bag" in errors(res)) == (not good), "an error is reported precisely if something required is missing or malformed")
    elif case == "nonhead":
        from multibag.validate.member import MemberBagValidator
        from multibag.validate.base import ALL, ERROR, WARN, REC, PROB, ValidationResults, ValidationIssue
        ver = ctx.choice("ver", [None, "0.4", "0.2", "", "twice"])
        head = ctx.flag("head")
        dep = ctx.choice("dep", [None, "0.9", ""])
        td = ctx.choice("td", [None, "multibag", "mb", "twice", ""])
        info = []
        if ver == "twice":
            info = info + [("Multibag-Version", "0.3"), ("Multibag-Version", "0.4")]
        elif ver is not None:
            info.append(("Multibag-Version", ver))
        if head:
            info.append(("Multibag-Head-Version", "1"))
        if dep is not None:
            info.append(("Multibag-Head-Deprecates", dep))
        if td == "twice":
            info = info + [("Multibag-Tag-Directory", "multibag"), ("Multibag-Tag-Directory", "mb")]
        elif td is not None:
            info.append(("Multibag-Tag-Directory", td))
        files = [("data/a", "a", 1)]
        dirs = [d for d in ("multibag", "mb") if ctx.flag("has " + d)]
        for d in dirs:
            files.append((d + "/x", "x", 1))
        mkbag(ctx, root, files, info=info)
        path = pack(ctx, root, ctx.choice("form", ["dir", "zip"]))
        res = MemberBagValidator(path).validate(ALL)
        ctx.check(res.failed(ERROR) == [], "an intact member bag has no errors")
        rec = [i.label for i in res.failed(REC)]
        ctx.check(rec == ([] if ver else ["3-Version-for-member"]), "a missing profile version is reported as recommendation")
        if not ver:
            ctx.cover("no version")
        exp = []
        if ver and not head:
            ctx.cover("not a head bag")
            if dep is not None:
                exp.append("2-Head-Deprecates")
            if td is not None:
                exp.append("2-Tag-Directory")
            for d in {None: ["multibag"], "": ["multibag"], "multibag": ["multibag"], "mb": ["mb"], "twice": ["multibag", "mb"]}[td]:
                if d in dirs:
                    exp.append("2-Tag-Directory")
        elif head:
            ctx.cover("head bag")
        ctx.check(sorted([i.label for i in res.failed(WARN)]) == sorted(exp), "what only head bags may have is reported, each time, for other bags")
        # results handed in are extended and returned
        have = ValidationResults("x", ALL)
        have._err(ValidationIssue("first", ERROR, "first"), False)
        res2 = MemberBagValidator(path).validate(ALL, have)
        ctx.cover("earlier results kept")
        ctx.check(res2 is have, "the results handed in are returned")
        ctx.check([i.label for i in res2.failed(ERROR)] == ["first"], "earlier outcomes are kept and errors are not invented")
        ctx.check(sorted([i.label for i in res2.failed(WARN)]) == sorted(exp), "the outcomes are added to the results handed in")
    elif case == "known-name":
        # the recorded finding: validate() drops the outcome for the bag's name (the existing tests fix the number of outcomes)
        root = ctx.path("s", "x") + "/" + p["name"]
        mkbag(ctx, root, [("data/a", "a", 1)], info=[("Multibag-Version", "0.4")])
        ctx.check(errors(judge(ctx, root, "member")) != [], "a name that ends in white space is reported by validate()")
    else:
        from multibag.validate.member import MemberBagValidator
        from multibag.validate.base import ALL, ERROR, ValidationResults, ValidationIssue
        n = ctx.text("name", 1, p["k"], "a .\t\n")
        ctx.assume(n != "." and n != "..")
        root = ctx.path("s", "x") + "/" + n
        vs = ctx.choice("vs", [["0.4"], ["0.2"], ["0.3", "0.2"], ["0.2", "0.4"]]) if len(n) < 3 else ["0.3"]
        mkbag(ctx, root, [("data/a", "a", 1)], info=[("Multibag-Version", x) for x in vs])
        ws = " \t\n"
        bad_tab = "\t" in n
        bad_ws = n[0] in ws or n[-1] in ws
        if bad_tab or bad_ws:
            ctx.cover("bad name")
        exp = (["2.1a-name-TAB"] if bad_tab else []) + (["2.1b-name-wsp"] if bad_ws else [])
        v = MemberBagValidator(root)
        ctx.check(errors(v.validate_bagname()) == exp, "the violated restrictions on names are reported")
        have = ValidationResults("x", ALL)
        have._err(ValidationIssue("first", ERROR, "first"), True)
        res = v.validate(ALL, have)
        # the last version given counts; 0.2 knew no restrictions
        ctx.check(errors(res) == (exp if vs[-1] != "0.2" else []), "the violated restrictions on names are added to the results handed in")
