"""Split output is a consistent aggregation: member list, lookup, manifests, metadata."""
from harness.lib import mkbag, drain, lines_of, BAGIT
from harness.C01 import mksplitter
from harness.rich import rich

COVERS = ["several bags", "one bag", "two algorithms", "tag manifest", "named", "excluded", "multi-valued", "exhausted names",
          "head bag split", "member name reused", "file of an earlier member"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names; 4 files (payload and tag) in hand-made and size-limited plans, two checksum algorithms, metadata with a symbolic "
                   "value of up to 2 characters, all documented renamings",
          "thorough": "as quick with 5 files and 3-character values"}
OUTSIDE = "source head bags with a multibag directory besides their tag directory or of a profile version before 0.3; plans naming files twice"
BUDGET = {"quick": 150, "thorough": 1500}
FILES = ["data/a b", "data/x/c", "meta/d", "about.txt", "data/x/e"]


def cases(tier):
    t = tier == "thorough"
    out = [("place", {"n": 5 if t else 4 if f == "dir" else 3, "form": f}) for f in ("dir", "ro", "zip")]
    out += [("sized", {"n": 4 if t else 3, "splitter": s}) for s in ("well", "neigh")]
    out += [("info", {"k": 3 if t else 2}), ("infomix", {}), ("naming", {})]
    out += [("rich", {"form": f}) for f in ("dir", "zip")]
    out.append(("headsrc", {}))
    return out


def parse_man(ctx, path):
    out = {}
    for ln in lines_of(ctx, path) or []:
        p = ln.split(None, 1)
        ctx.check(p[1] not in out, "no manifest lists a file twice")
        out[p[1]] = p[0]
    return out


def check_output(ctx, dirs, files, hashes, thash, bagit, srcinfo):
    """hashes/thash: {alg: {path: digest}}"""
    names = [d.split("/")[-1] for d in dirs]
    ctx.cover("several bags" if len(dirs) > 1 else "one bag")
    head = dirs[-1]
    ctx.check(lines_of(ctx, head + "/multibag/member-bags.tsv") == names, "the member list names the output bags in order, head bag last")
    lookup = {}
    for ln in lines_of(ctx, head + "/multibag/file-lookup.tsv"):
        p = ln.split("\t")
        ctx.check(len(p) == 2, "a lookup line has two fields")
        ctx.check(p[0] not in lookup, "a file is looked up once")
        lookup[p[0]] = p[1]
    ctx.check(len(lookup) == len(files), "the lookup lists the files and nothing else")
    for f in files:
        where = [n for n, d in zip(names, dirs) if ctx.exists(d + "/" + f)]
        ctx.check(f in lookup and [lookup[f]] == where, "the lookup gives the bag that holds the file")
    for d in dirs[:-1]:
        ctx.check(not ctx.exists(d + "/multibag"), "only the head bag has multibag tag files")
    ctx.check(ctx.text_of(head + "/multibag/aggregation-info.txt") == srcinfo, "the head bag keeps the source's metadata verbatim")
    for d in dirs:
        ctx.check(ctx.text_of(d + "/bagit.txt") == bagit, "the declaration is the source's")
        here = [f for f in files if ctx.exists(d + "/" + f)]
        for alg in hashes:
            man = parse_man(ctx, d + "/manifest-%s.txt" % alg)
            exp = [f for f in here if f.startswith("data/")]
            ctx.check(ctx.isfile(d + "/manifest-%s.txt" % alg), "each bag has the source's payload manifests")
            ctx.check(len(man) == len(exp), "the payload manifest lists the payload held and nothing else")
            for f in exp:
                ctx.check(f in man and man[f] == hashes[alg][f], "the payload manifest carries the source's checksum")
        for alg in thash:
            man = parse_man(ctx, d + "/tagmanifest-%s.txt" % alg)
            exp = [f for f in here if not f.startswith("data/")]
            ctx.check(len(man) == len(exp), "the tag manifest lists the tag files held and nothing else")
            for f in exp:
                ctx.check(f in man and man[f] == thash[alg][f], "the tag manifest carries the source's checksum")


def aslist(v):
    return v if isinstance(v, list) else [v]


def info_of(d):
    from multibag.access.bagit import open_bag
    b = open_bag(d)
    return dict([(k, aslist(b.info[k])) for k in b.info])


def check_info(ctx, dirs, info, nopass, headver, files, deprec=None):
    """info: list of (name, value) of the source; checks the metadata of each output bag"""
    src = {}
    for k, v in info:
        if k not in src:
            src[k] = []
        src[k].append(v.replace("\n", ""))     # a folded value reads as one line
    for i, d in enumerate(dirs):
        got = info_of(d)
        bn = d.split("/")[-1]
        exp = {"Multibag-Version": ["0.4"]}
        n, tot = 0, 0
        for f in files:
            if f.startswith("data/") and ctx.exists(d + "/" + f):
                n = n + 1
                tot = tot + ctx.size_of(d + "/" + f)
        for k in src:
            if k in nopass or k.startswith("Multibag-"):
                continue
            if k == "Internal-Sender-Identifier":
                exp[k] = [bn]
                exp["Multibag-Source-" + k] = src[k]
            elif k == "Internal-Sender-Description":
                exp["Multibag-Source-" + k] = src[k]
                ctx.check(k in got and len(got[k]) == 1 and got[k] != src[k], "the bag has its own description")
                exp[k] = got[k]
            elif k == "External-Identifier":
                exp["Multibag-Source-" + k] = src[k]
                exp[k] = [src[k][0] + "/mbag:" + bn]
                exp["Bag-Group-Identifier"] = src[k]
            elif k == "Bag-Size":
                exp["Multibag-Source-" + k] = src[k]
            elif k == "Payload-Oxum":
                exp[k] = ["%s.%s" % (tot, n)]
            else:
                exp[k] = src[k]
        if i == len(dirs) - 1:
            exp["Multibag-Head-Version"] = [headver]
            exp["Multibag-Tag-Directory"] = ["multibag"]
            if deprec:
                exp["Multibag-Head-Deprecates"] = deprec
        for k in exp:
            ctx.check(k in got, "metadata element %s is present" % k)
            ctx.check(got[k] == exp[k], "metadata element %s has the documented value" % k)
        for k in got:
            ctx.check(k in exp, "no other metadata element (%s)" % k)


def run(ctx, case, **p):
    from multibag import split
    src = ctx.path("src")
    out = ctx.path("out")
    ctx.mkdir(out)
    if case in ("place", "sized"):
        names = FILES[:p["n"]]
        files = [(nm, "t%d" % i, ctx.int("s%d" % i, 0, 9)) for i, nm in enumerate(names)]
        algs = ("sha256", "md5") if ctx.flag("two") else ("sha256",)
        tagman = ("sha256",) if ctx.flag("tagman") else ()
        if len(algs) == 2:
            ctx.cover("two algorithms")
        if tagman:
            ctx.cover("tag manifest")
        info = [("Contact-Name", "X")]
        mkbag(ctx, src, files, algs, info, tagman)
        hashes = dict([(a, dict([(f, ctx.digest(a, src + "/" + f)) for f in names if f.startswith("data/")])) for a in algs])
        thash = dict([(a, dict([(f, ctx.digest(a, src + "/" + f)) for f in names if not f.startswith("data/")])) for a in tagman])
        srcinfo = ctx.text_of(src + "/bag-info.txt")
        oxum = srcinfo.split("Payload-Oxum: ")[1].strip()
        if case == "place":
            path = src
            if p["form"] == "ro":
                from multibag.access.bagit import open_bag
                plan = split.SplitPlan(open_bag(src))
            else:
                if p["form"] == "zip":
                    path = ctx.path("s.zip")
                    ctx.archive(path, "zip", src, "src")
                plan = split.SplitPlan(path)
            m = [[], [], []]
            for i, f in enumerate(names):
                m[ctx.choice("b%d" % i, [0, 1, 2])].append(f)
            for k in range(3):
                plan._manifests.append({"contents": m[k], "name": "m%d" % k, "totalsize": 0})
        else:
            plan = mksplitter(p["splitter"], ctx.int("max", 1, 9)).plan(src)
        dirs = drain(plan.apply_iter(out))
        check_output(ctx, dirs, names, hashes, thash, BAGIT, srcinfo)
        check_info(ctx, dirs, info + [("Payload-Oxum", oxum)], [], "1", names)
    elif case == "rich":
        files = rich()
        names = [f[0] for f in files if not f[0].endswith("/")]
        algs, tagman = ("md5", "sha512"), ("sha1",)
        info = [("Contact-Name", "X"), ("Contact-Name", "Y")]
        mkbag(ctx, src, files, algs, info, tagman)
        hashes = dict([(a, dict([(f, ctx.digest(a, src + "/" + f)) for f in names if f.startswith("data/")])) for a in algs])
        thash = dict([(a, dict([(f, ctx.digest(a, src + "/" + f)) for f in names if not f.startswith("data/")])) for a in tagman])
        srcinfo = ctx.text_of(src + "/bag-info.txt")
        path = src
        if p["form"] == "zip":
            path = ctx.path("s.zip")
            ctx.archive(path, "zip", src, "src")
        if p["form"] == "dir" and ctx.flag("sized"):
            plan = mksplitter(ctx.choice("sp", ["well", "neigh"]), ctx.int("max", 20, 24)).plan(src)
        else:
            plan = split.SplitPlan(path)
            k = ctx.choice("every", [2, 3, 5, 7])
            parts = [[] for i in range(k)]
            for i, f in enumerate(files):
                parts[i % k].append(f[0].rstrip("/"))
            for i in range(k):
                plan._manifests.append({"contents": parts[i], "name": "m%d" % i, "totalsize": 0})
        dirs = drain(plan.apply_iter(out))
        check_output(ctx, dirs, names, hashes, thash, BAGIT, srcinfo)
        check_info(ctx, dirs, info + [("Payload-Oxum", srcinfo.split("Payload-Oxum: ")[1].strip())], [], "1", names)
    elif case == "headsrc":
        # the source is itself the head bag of an aggregation: its members come first and its lookup is kept
        ctx.cover("head bag split")
        old = ctx.choice("old", [["src"], ["m1", "src"], ["m2", "m1", "src"], None])
        td = "mbt" if old and len(old) == 2 else "multibag"
        names = ["data/a", "data/d/b", "meta/c"]
        look = []
        for f in ["data/only", "data/a"]:
            if ctx.flag("in" + f):
                look.append((f, (old or ["m1"])[0]))
        files = [(f, "t" + f, 3) for f in names]
        if old is not None:
            files.append((td + "/member-bags.tsv", "".join([m + "\n" for m in old])))
        if look or old is not None:
            files.append((td + "/file-lookup.tsv", "".join(["%s\t%s\n" % x for x in look])))
        gone = ctx.choice("gone", [[], ["data/g"], ["data/g", "data/only"]])
        if gone:
            files.append((td + "/deleted.txt", "".join([f + "\n" for f in gone])))
        mkbag(ctx, src, files, info=[("Contact-Name", "X"), ("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.5"), ("Multibag-Tag-Directory", td)], tagman=("sha256",) if gone else ())
        plan = split.SplitPlan(src)
        parts = [[], []]
        for f in names:
            parts[ctx.choice("b" + f, [0, 1]) if f != "data/a" else 0].append(f)
        where = 0
        for f, t in [x for x in files if len(x) == 2]:
            parts[where].append(f)
            where = 1 - where
        for i in (0, 1):
            plan._manifests.append({"contents": parts[i], "name": "o%d" % i, "totalsize": 0})
        given = ctx.choice("names", [None, ["x", "src"], ["src", "m1"], ["m1", "o1"]])
        new = given or ["o0", "o1"]
        dirs = drain(plan.apply_iter(out, iter(given) if given else None))
        ctx.check([d.split("/")[-1] for d in dirs] == new, "output bags are named as asked, in order")
        if [m for m in old or [] if m in new]:
            ctx.cover("member name reused")
        ctx.check(lines_of(ctx, dirs[-1] + "/multibag/member-bags.tsv") == [m for m in old or [] if m not in new] + new,
                  "the members of the source's aggregation come before the output bags, each bag listed once")
        lookup = {}
        for ln in lines_of(ctx, dirs[-1] + "/multibag/file-lookup.tsv"):
            f, n = ln.split("\t")
            ctx.check(f not in lookup, "a file is looked up once")
            lookup[f] = n
        exp = dict(look)
        if "data/only" in exp:
            ctx.cover("file of an earlier member")
        for i in (0, 1):
            for f in parts[i]:
                if not f.startswith(td):
                    exp[f] = new[i]
        ctx.check(lookup == exp, "files split map to the output bag that holds them, files of earlier members as before")
        ctx.check(not ctx.exists(dirs[0] + "/multibag"), "only the head bag has multibag tag files")
        ctx.check(sorted(lines_of(ctx, dirs[-1] + "/multibag/deleted.txt") or []) == gone, "what the source's aggregation deleted stays deleted")
        for d in dirs:
            ctx.check(td == "multibag" or not ctx.exists(d + "/" + td), "the source's multibag tag files are replaced")
            man = parse_man(ctx, d + "/tagmanifest-sha256.txt") if gone else {}
            for f in man:
                ctx.check(ctx.isfile(d + "/" + f) and man[f] == ctx.digest("sha256", d + "/" + f), "the tag manifests are right")
        check_info(ctx, dirs, [("Contact-Name", "X"), ("Payload-Oxum", "6.2")], [], "1", names)
    elif case in ("info", "infomix"):
        if case == "info":
            v = ctx.text("v", 1, p["k"], "a:,\xe9") + ctx.choice("tail", ["", " b", "\n  folded"])
            k = ctx.choice("k", ["Contact-Name", "External-Identifier", "Internal-Sender-Identifier", "Internal-Sender-Description",
                                 "Bag-Size", "X-Other", "Multibag-Foo", "Bag-Group-Identifier", "Bagging-Date", "Source-Organization",
                                 "payload-oxum", "Bag-Count", "Multibagger", "X-Multibag-Y"])
            info = [("First", "1"), (k, v)]
            if ctx.flag("twice"):
                info.append((k, "again"))
                ctx.cover("multi-valued")
            if ctx.flag("other"):
                info.append(("Last", "z"))
        else:
            info = []
            for k in ["External-Identifier", "Internal-Sender-Identifier", "Internal-Sender-Description", "Bag-Size", "X-Other"]:
                if ctx.flag("has-" + k):
                    info.append((k, "val " + k))
        nopass = []
        if ctx.flag("nopass"):
            last = info[-1][0] if info else "Q"
            nopass = ctx.choice("np", [[last], ["Payload-Oxum"], ["Nope", last[:-1], last + "s", last.lower() + "x"], [last, "First"]])
            ctx.cover("excluded")
        files = [("data/a", "t0", 3), ("data/b", "t1", 2)]
        ox = ctx.flag("oxum")
        mkbag(ctx, src, files, info=info, oxum=ox)
        srcinfo = ctx.text_of(src + "/bag-info.txt")
        lay = ctx.choice("lay", ["", "crlf" if case == "info" else "blank"])
        if lay:
            srcinfo = srcinfo.replace("\n", "\r\n") if lay == "crlf" else srcinfo + "\nFinal: 1\n\n"
            if lay == "blank":
                info.append(("Final", "1"))
            ctx.write(src + "/bag-info.txt", srcinfo)
        plan = mksplitter("well", 4).plan(src) if ctx.flag("plan") else None
        if plan is None:
            plan = split.SplitPlan(src)
            plan._manifests.append({"contents": ["data/a"], "name": "m0"})
            plan._manifests.append({"contents": ["data/b"], "name": "m1"})
        deprec = None
        hv = "1"
        if case == "infomix":
            if ctx.flag("deprec"):
                plan._deprecates = [("1.0",), ("1.1", "old")]
                deprec = ["1.0", "1.1,old"]
            hv = ctx.choice("hv", ["1", "2.0"])
            plan.head_version = hv
        dirs = drain(plan.apply_iter(out, info_nopass=nopass))
        ctx.check(ctx.text_of(dirs[-1] + "/multibag/aggregation-info.txt") == srcinfo, "the head bag keeps the source's metadata verbatim")
        check_info(ctx, dirs, info + ([("Payload-Oxum", "5.2")] if ox else []), nopass, hv, [f[0] for f in files], deprec)
    else:
        ctx.cover("named")
        files = [("data/a", "t0", 3), ("data/b", "t1", 3), ("data/c", "t2", 3)]
        base = ctx.choice("base", ["src", "my.src.d", "s p"])
        src = ctx.path(base)
        mkbag(ctx, src, files)
        how = ctx.choice("how", ["default", "basis", "iter", "rename", "reverse", "apply", "short", "empty", "noplan"])
        sp = mksplitter("well", 3)
        stem = {"src": "src", "my.src.d": "my.src", "s p": "s p"}[base]
        exp = ["%s_%d.mbag" % (stem, i) for i in (1, 2, 3)]
        custom = ["z", "y", "x"]
        if how == "noplan":
            plan = split.SplitPlan(src)
            raised = False
            try:
                drain(plan.apply_iter(out))
            except RuntimeError:
                raised = True
            ctx.check(raised, "applying an empty plan is refused")
            ctx.stop()
        if how in ("short", "empty"):
            raised = False
            try:
                sp.plan(src, iter(custom[:2] if how == "short" else []))
            except RuntimeError:
                raised = True
            ctx.check(raised, "running out of names while planning is reported")
            plan = sp.plan(src)
            dirs = drain(plan.apply_iter(out, iter(custom[:2])))
            ctx.cover("exhausted names")
            ctx.check([d.split("/")[-1] for d in dirs] == custom[:2] + exp[2:], "bags beyond the given names keep their names")
        else:
            plan = sp.plan(src, {"basis": "B", "iter": iter(custom)}.get(how))
            if how == "rename":
                plan.name_output_bags(iter(custom))
            if how == "reverse":
                plan.name_output_bags(iter(custom), True)
            dirs = drain(plan.apply_iter(out, iter(custom) if how == "apply" else None))
            exp = {"default": exp, "basis": ["B_1.mbag", "B_2.mbag", "B_3.mbag"], "reverse": ["x", "y", "z"]}.get(how, custom)
            ctx.check(dirs == [out + "/" + n for n in exp], "output bags are named as asked, in order")
        check_output(ctx, dirs, [f[0] for f in files], {"sha256": dict([(f[0], ctx.digest("sha256", src + "/" + f[0])) for f in files])},
                     {}, BAGIT, ctx.text_of(src + "/bag-info.txt"))
