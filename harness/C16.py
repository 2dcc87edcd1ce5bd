"""Head-bag validation reports exactly the violated requirements."""
from harness.lib import mkbag
from harness.rich import rich

COVERS = ["no failure", "several requirements broken", "serialized", "not a head bag", "older profile", "lookup line", "member line"]
BOUNDS = {"quick": "up to 9 offending lines of a kind; a fixed tree of 66 files with unusual names of which any one is not looked up, looked up although absent or with another case; every pair out of 11 groups of defects (3-8 variants each), as a directory or serialized; member lists and lookup lists of up to 2 lines in any combination of 8-10 kinds of lines; one free line of up to 4 characters over the characters the reader distinguishes; profile versions 0.2, 0.3 and 0.4",
          "thorough": "triples of groups; 3 lines; free lines of up to 6 characters"}
OUTSIDE = "which profile versions are supported; URLs other than the forms listed; hidden payload files (not required to be looked up); wording of comments; a comment in the place of the URL"
BUDGET = {"quick": 150, "thorough": 2400}

E, W, R = 1, 2, 4


def cases(tier):
    t = tier == "thorough"
    out = []
    g = list(range(len(GROUPS)))
    for i in g:
        for j in g:
            if j > i:
                if t:
                    for k in g:
                        if k > j:
                            out.append(("pair", {"g": [i, j, k]}))
                else:
                    out.append(("pair", {"g": [i, j]}))
    for v in ("0.4", "0.3", "0.2"):
        out.append(("members", {"v": v, "n": 3 if t else 2}))
        out.append(("lookup", {"v": v, "n": 3 if t else 2}))
    for v in ("0.4", "0.2"):
        out.append(("long", {"v": v}))
    out.append(("rich", {"form": "dir"}))
    out.append(("rich", {"form": "zip"}))
    out.append(("memtext", {"k": 6 if t else 4}))
    out.append(("lutext", {"k": 6 if t else 4}))
    return out


# each variant: (what to do, [(label, kind), ...] that have to fail)
# a group is (name, variants); the first variant is the intact one
REF = ("ref", [(["https://x.org/s"], []), ([], [("3-Reference", R)]), ([""], [("3-Reference", R)]),
               (["x.org/s"], [("3-Reference-val", E)]), (["/s"], [("3-Reference-val", E)]), (["https:"], [("3-Reference-val", E)]),
               (["http://[x"], [("3-Reference-val", E)]), (["y", "https://x.org"], [])])
TAG = ("tag", [((["multibag"], "multibag"), []), (([], "multibag"), []), ((["mb/x"], "mb/x"), []),
               (([""], "multibag"), [("3-Tag-Directory", E)]),
               ((["a", "multibag"], "multibag"), [("3-Tag-Directory", E)]),
               ((["gone"], "multibag"), [("3-Tag-Directory", E)]),
               (([], "other"), [("3-Tag-Directory", E)]),
               ((["a", ""], "multibag"), [("3-Tag-Directory", E)]),
               ((["multibag", "multibag"], "multibag"), [("3-Tag-Directory", E)]),
               ((["t"], "multibag"), [("3-Tag-Directory", E)])])
HV = ("hv", [(["1.0"], []), ([], [("3-Head-Version", E)]), ([""], [("3-Head-Version_nonempty", W)]),
             (["0.9", "1.0"], [("3-Head-Version_single", W)]), (["1", ""], [("3-Head-Version_nonempty", W), ("3-Head-Version_single", W)])])
DEP = ("dep", [([], []), (["0.1"], []), (["0.1", "0.2, other"], []), (["0.1, x, y"], [("3-Head-Deprecates_format", E)]),
               (["", "0.1, x, y"], [("3-Head-Deprecates_notempty", W), ("3-Head-Deprecates_format", E)]),
               ([""], [("3-Head-Deprecates_notempty", W)]), (["0.2, hb"], [("3-Head-Deprecates_notselfdep", W)]),
               (["0.2", "0.3,hb"], [("3-Head-Deprecates_notselfdep", W)]), (["0.2", "1.0 , x"], [("3-Head-Deprecates_notselfdep", W)]), (["1", "1.0.0", "0.2,HB", "hb"], []),
               (["1.0", "0.2"], [("3-Head-Deprecates_notselfdep", W)])])
REC = ("rec", [([("Internal-Sender-Identifier", "i"), ("Internal-Sender-Description", "d"), ("Bag-Group-Identifier", "g")], []),
               ([("Internal-Sender-Description", "d"), ("Bag-Group-Identifier", "g")], [("3-2", R)]),
               ([("Internal-Sender-Identifier", "i"), ("Bag-Group-Identifier", "g")], [("3-2", R)]),
               ([("Internal-Sender-Identifier", "i"), ("Internal-Sender-Description", "d")], [("3-2", R)]),
               ([("Internal-Sender-Identifier", ""), ("Internal-Sender-Description", "d"), ("Bag-Group-Identifier", "g")], [("3-2", R)]),
               ([("Internal-Sender-Identifier", "i"), ("Internal-Sender-Description", ""), ("Internal-Sender-Description", "d"), ("Bag-Group-Identifier", "g")], [("3-2", E)])])
VER = ("ver", [(["0.4"], []), (["0.3"], []), ([], [("3-Version", E)]), ([""], [("3-Version", E)]), (["0.3", "0.4"], [("3-Version", W)])])
MEM = ("mem", [("m1\nhb\n", []), (None, [("4.0-1", E)]), ("hb\nm1\n", [("4.1-4", E)]), ("m1\n", [("4.1-3", E), ("4.1-4", E)]),
               ("m1\tfoo\nhb\n", [("4.1-2", E)]), ("m1\nm1\nhb\n", [("4.1-5", W)]), ("m1\thttps://x.org/m1.zip\nhb\tdoi:10.1/x\n", []),
               ("m1\t# no URL\nhb\t\tmore\t# x\n", []),
               ("m1\t#x\nhb\n", [("4.1-2", E)]),
               ("", [("4.1-3", E), ("4.1-4", E)])])
LU = ("lu", [("data/a\thb\ndata/b\tm1\n", []), (None, [("4.0-2", E)]), ("data/b\tm1\n", [("4.2-4", R)]),
             ("data/a\thb\ndata/z\thb\n", [("4.2-2", E)]), ("data/a\thb\ndata/a\thb\n", [("4.2-3", W)]),
             ("data/a\n", [("4.2-1", E)]), ("data/a\thb\tx\n", [("4.2-1", E)]), ("", [("4.2-4", R)])])
AGI = ("agi", [(None, []), ("Contact: me\n", []), ("Contact: me\nnonsense\n", [("4.4-1", E)])])
BAG = ("bag", [("ok", []), ("altered", [("2-Bag", E)]), ("lost", [("2-Bag", E), ("4.2-2", E)]), ("added", [("2-Bag", E), ("4.2-4", R)]),
               ("nodata", [("2-Bag", E), ("4.2-2", E)]), ("oxum", [("2-Bag", E)])])
FORM = ("form", [("dir", []), ("zip", []), ("tar", [])])
GROUPS = [REF, TAG, HV, DEP, REC, VER, MEM, LU, AGI, BAG, FORM]


def build(ctx, sel):
    """make the head bag hb with the selected variants; returns the path to validate"""
    root = ctx.path("b", "hb")
    td = sel["tag"][1]
    info = []
    for name, key in (("ref", "Multibag-Reference"), ("tag", "Multibag-Tag-Directory"), ("hv", "Multibag-Head-Version"), ("dep", "Multibag-Head-Deprecates"),
                      ("ver", "Multibag-Version")):
        vals = sel[name][0] if name == "tag" else sel[name]
        info += [(key, v) for v in vals]
    info += sel["rec"]
    files = [("data/a", "a", 3), ("meta/t", "t", 2), ("t", "t", 1)]
    v2 = sel.get("v2")
    if sel["mem"] is not None:
        files.append((td + ("/group-members.txt" if v2 else "/member-bags.tsv"), sel["mem"]))
    if sel["lu"] is not None:
        files.append((td + ("/group-directory.txt" if v2 else "/file-lookup.tsv"), sel["lu"]))
    if sel["agi"] is not None:
        files.append((td + "/aggregation-info.txt", sel["agi"]))
    if sel["mem"] is None and sel["lu"] is None and sel["agi"] is None:
        files.append((td + "/", None))
    mkbag(ctx, root, files, info=info, tagman=("sha256",), oxum=sel["bag"] != "oxum", extra_info=())
    b = sel["bag"]
    if b == "altered":
        ctx.blob(root + "/data/a", "other", 3)
    elif b == "lost":
        ctx.remove(root + "/data/a")
    elif b == "added":
        ctx.blob(root + "/data/n", "n", 1)
    elif b == "nodata":
        ctx.rmtree(root + "/data")
    elif b == "oxum":
        t = ctx.text_of(root + "/bag-info.txt")
        ctx.write(root + "/bag-info.txt", t + "Payload-Oxum: 4.1\n")
    if sel["form"] != "dir":
        ctx.cover("serialized")
        ctx.archive(root + "." + sel["form"], sel["form"], root, "hb")
        ctx.rmtree(root)
        root = root + "." + sel["form"]
    return root


def default():
    return dict([(n, vs[0][0]) for n, vs in GROUPS])


def verify(ctx, path, exp, ignore=()):
    from multibag.validate.headbag import HeadBagValidator
    v = HeadBagValidator(path)
    res = v.validate(7)
    got = sorted(set([(i.label, i.type) for i in res.failed()]))
    got = [g for g in got if g[0] not in ignore]
    exp = sorted(set(exp))
    for e in exp:
        ctx.check(e in got, "the violated requirement %s is reported" % (e,))
    for g in got:
        ctx.check(g in exp, "only violated requirements are reported (%s)" % (g,))
    if not exp:
        ctx.cover("no failure")
    if len(exp) > 1:
        ctx.cover("several requirements broken")
    for want in (1, 3):
        bad = len([e for e in got if e[1] & want]) > 0
        ctx.check(HeadBagValidator(path).is_valid(want) == (not bad), "the bag is valid precisely if nothing of the kinds asked for fails")


MLINES = [("hb", "hb", 0, 0), ("hb ", "hb", 0, 0), ("m", "m", 0, 0), ("m\thttps://x.org/m.zip", "m", 0, 0), ("m\tfoo/bar", "m", 1, 0), ("hb\thttp://x/y\tinfo\t# c", "hb", 0, 0),
          ("m\t\tinfo", "m", 0, 0), ("\thttps://x.org/m.zip", "", 0, 1), (" ", None, 0, 0), ("q q\tftp://x/y", "q q", 0, 0),
          ("HB", "HB", 0, 0), ("hb.zip\tark:/1/2", "hb.zip", 0, 0), ("m\t//x.org/m", "m", 1, 0)]
MLINES2 = [("hb", "hb", 0, 0), ("m", "m", 0, 0), ("m https://x.org/m.zip", "m", 0, 0), ("m foo/bar", "m", 1, 0), ("hb http://x/y z", "hb", 0, 1), ("  hb   http://x/y ", "hb", 0, 0), (" ", None, 0, 0)]
# line, path, bag, well-formed
LLINES = [("data/a\thb", "data/a", "hb", 1), ("data/a \t hb ", "data/a", "hb", 1), ("data/a\tm", "data/a", "m", 1), ("data/z\thb", "data/z", "hb", 1), ("data/z\tm", "data/z", "m", 1),
          ("meta/t\thb", "meta/t", "hb", 1), ("data/a", "data/a", "", 0), ("data/a\thb\tx", "data/a", "hb", 0), ("data\thb", "data", "hb", 1), (" \t", None, "", 0), ("data/a\t", "data/a", "", 0), ("data/a\tHB", "data/a", "HB", 1), ("DATA/A\thb", "DATA/A", "hb", 1)]
LLINES2 = [("data/a hb", "data/a", "hb", 1), ("data/a   hb ", "data/a", "hb", 1), ("data/a m", "data/a", "m", 1), ("data/z hb", "data/z", "hb", 1), ("data/a", "data/a", "", 0), ("data/a hb x", "data/a", "hb", 0), ("", None, "", 0)]


def expect_members(rows):
    """rows: (name, badurl, badfmt)"""
    exp = []
    names = [r[0] for r in rows]
    if [r for r in rows if r[1]]:
        exp.append(("4.1-2", E))
    if [r for r in rows if r[2]]:
        exp.append(("4.1-1", E))
    if "hb" not in names:
        exp.append(("4.1-3", E))
    if not names or names[-1] != "hb":
        exp.append(("4.1-4", E))
    if len(set(names)) < len(names):
        exp.append(("4.1-5", W))
    return exp


def run(ctx, case, **p):
    sel = default()
    if case == "pair":
        exp = []
        chosen = {}
        for gi in p["g"]:
            name, variants = GROUPS[gi]
            k = ctx.choice(name, list(range(len(variants))))
            sel[name] = variants[k][0]
            exp += variants[k][1]
            chosen[name] = k
        if not sel["hv"]:
            ctx.cover("not a head bag")
        ign = []
        # what the combination of two defects means
        if sel["tag"][1] == "other" or sel["tag"][0] in (["gone"], ["t"]):
            exp = [e for e in exp if e[0] not in ("4.1-2", "4.1-3", "4.1-4", "4.1-5", "4.0-1", "4.0-2", "4.2-1", "4.2-2", "4.2-3", "4.2-4", "4.4-1")]
        if ("1.0 , x" in sel["dep"] or "1.0" in sel["dep"]) and sel["hv"][-1:] != ["1.0"]:
            exp = [e for e in exp if e[0] != "3-Head-Deprecates_notselfdep"]
        if "1" in sel["dep"] and sel["hv"][-1:] == ["1"]:
            exp.append(("3-Head-Deprecates_notselfdep", W))
        if sel["lu"] is None:
            exp = [e for e in exp if e[0] not in ("4.2-2", "4.2-4")]
        if sel["bag"] in ("lost", "nodata"):
            exp = [e for e in exp if e[0] not in ("4.2-2", "4.2-4")]
            gone = sel["tag"][1] == "other" or sel["tag"][0] in (["gone"], ["t"]) or sel["lu"] is None
            if not gone and [ln for ln in sel["lu"].split("\n") if ln.startswith("data/a\thb") or ln.startswith("data/z\thb")]:
                exp.append(("4.2-2", E))
        if chosen.get("bag", 0) and sel["lu"] is not None and sel["bag"] == "added" and not (sel["tag"][1] == "other" or sel["tag"][0] in (["gone"], ["t"])):
            exp.append(("4.2-4", R))
        if sel["ver"][-1:] == ["0.3"]:
            exp = [e for e in exp if e[0] != "4.4-1"]
        path = build(ctx, sel)
        verify(ctx, path, exp, ign)
    elif case == "members":
        v2 = p["v"] == "0.2"
        if v2:
            ctx.cover("older profile")
        sel["ver"] = [p["v"]]
        sel["v2"] = v2
        if v2:
            sel["lu"] = "data/a hb\n"
        lines = MLINES2 if v2 else MLINES
        rows = []
        text = ""
        for i in range(p["n"]):
            ln = lines[ctx.choice("l%d" % i, list(range(len(lines))))]
            text = text + ln[0] + "\n"
            if ln[1] is not None:
                rows.append((ln[1], ln[2], ln[3]))
        if ctx.flag("endhb"):
            text = text + "hb"
            rows.append(("hb", 0, 0))
        sel["mem"] = text
        verify(ctx, build(ctx, sel), expect_members(rows))
    elif case == "lookup":
        v2 = p["v"] == "0.2"
        sel["ver"] = [p["v"]]
        sel["v2"] = v2
        lines = LLINES2 if v2 else LLINES
        text = ""
        rows = []
        for i in range(p["n"]):
            ln = lines[ctx.choice("l%d" % i, list(range(len(lines))))]
            text = text + ln[0] + "\n"
            if ln[1] is not None:
                rows.append(ln)
        sel["lu"] = text
        verify(ctx, build(ctx, sel), expect_lookup(rows))
    elif case == "long":
        # many offending lines of a kind
        v2 = p["v"] == "0.2"
        sel["ver"] = [p["v"]]
        sel["v2"] = v2
        sep = " " if v2 else "\t"
        kind = ctx.choice("kind", ["url", "name", "again", "path", "form", "twice"])
        n = ctx.choice("n", [0, 1, 3, 4, 5, 6, 9])
        mem, lu = "", "data/a%shb\n" % sep
        exp = []
        for i in range(n):
            if kind == "url":
                mem = mem + "m%d%snope\n" % (i, sep)
            elif kind == "name":
                mem = mem + ("m%d http://x.org/y z\n" % i if v2 else "\thttp://x.org/%d\n" % i)
            elif kind == "again":
                mem = mem + "m0\nm0\n"
            elif kind == "path":
                lu = lu + "data/q%d%shb\n" % (i, sep)
            elif kind == "form":
                lu = lu + "data/q%d\n" % i
            else:
                lu = lu + "data/q0%sm0\ndata/q0%sm0\n" % (sep, sep)
        if n:
            exp = {"url": [("4.1-2", E)], "name": [("4.1-1", E)], "again": [("4.1-5", W)], "path": [("4.2-2", E)], "form": [("4.2-1", E)], "twice": [("4.2-3", W)]}[kind]
            if kind == "name" and not v2 and n > 1:
                exp = exp + [("4.1-5", W)]
        sel["mem"], sel["lu"] = mem + "hb\n", lu
        verify(ctx, build(ctx, sel), exp)
    elif case == "rich":
        # a head bag with files of unusual names: each is looked up, one may be missing from the list or absent
        root = ctx.path("b", "hb")
        files = [f for f in rich() if f[0] != "data/multibag/member-bags.tsv"]
        names = [f[0] for f in files if len(f) == 3]
        pay = [f for f in names if f.startswith("data/")]
        what = ctx.choice("what", ["none", "unlisted", "absent", "cased"])
        f = names[ctx.choice("f", list(range(len(names))))] if what != "none" else None
        lines = list(names)
        exp = []
        if what == "unlisted":
            lines.remove(f)
            if f in pay and not f.split("/")[-1].startswith("."):
                exp = [("4.2-4", R)]
        elif what == "absent":
            lines.append(f + ".x")
            exp = [("4.2-2", E)]
        elif what == "cased":
            # names that differ in case only are different
            g = f[:-1] + f[-1].swapcase()
            if g == f or g in names:
                ctx.stop()
            lines.append(g)
            exp = [("4.2-2", E)]
        mkbag(ctx, root, files + [("multibag/member-bags.tsv", "m1\nhb\n"), ("multibag/file-lookup.tsv", "".join([x + "\thb\n" for x in lines]))],
              info=[("Multibag-Version", "0.4"), ("Multibag-Reference", "https://x.org/s"), ("Multibag-Tag-Directory", "multibag"), ("Multibag-Head-Version", "1.0")] + REC[1][0][0], tagman=("sha256",))
        path = root
        if p["form"] == "zip":
            path = root + ".zip"
            ctx.archive(path, "zip", root, "hb")
        verify(ctx, path, exp)
    elif case == "memtext":
        ctx.cover("member line")
        s = ctx.text("line", 0, p["k"], "hb \t")
        sel["mem"] = "m\n" + s + "\n"
        fields = [f.strip() for f in s.split("\t")]
        if not s.strip():
            rows = [("m", 0, 0)]
        else:
            rows = [("m", 0, 0), (fields[0], len(fields) > 1 and len(fields[1]) > 0, not fields[0])]
        verify(ctx, build(ctx, sel), expect_members(rows))
    else:
        ctx.cover("lookup line")
        s = ctx.text("line", 0, p["k"], "thb \t")
        sel["lu"] = "data/a\tm\n" + s + "\n"
        fields = [f.strip() for f in s.split("\t")]
        rows = [("", "data/a", "m", 1)]
        if s.strip():
            rows.append(("", fields[0], fields[1] if len(fields) > 1 else "", len(fields) == 2 and len(fields[0]) > 0 and len(fields[1]) > 0))
        verify(ctx, build(ctx, sel), expect_lookup(rows))


def expect_lookup(rows):
    exp = []
    paths = [r[1] for r in rows]
    if [r for r in rows if not r[3]]:
        exp.append(("4.2-1", E))
    if [r for r in rows if r[2] == "hb" and r[1] not in ("data/a", "meta/t", "t")]:
        exp.append(("4.2-2", E))
    if len(set(paths)) < len(paths):
        exp.append(("4.2-3", W))
    if "data/a" not in paths:
        exp.append(("4.2-4", R))
    return exp
