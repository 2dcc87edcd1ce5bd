"""Splitting, restoring and amending leave their source bags unchanged, also when they fail part-way."""
from harness.lib import mkbag, drain, same_tree
from harness.agg import Agg
from harness.C01 import mksplitter
from harness.rich import rich

COVERS = ["completed", "failed part-way", "hard link", "head bag split", "output edited", "amend plain", "amend head"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names (no failures); bags of 3-6 files, plain or head bags (two tag directory names); a failure at any one of the file-system operations that change something (up to 300), or none",
          "thorough": "two failures; more layouts"}
OUTSIDE = "in-place operations; failures of reads; access times"
BUDGET = {"quick": 150, "thorough": 1500}
OPS = ("link", "mkdir", "copy", "remove", "rename", "rmtree", "open-w", "open-a", "open-x")


def cases(tier):
    t = tier == "thorough"
    out = []
    for kind in ("plain", "head", "head2", "left"):
        for s in ("well", "neigh", "complete"):
            out.append(("split", {"kind": kind, "splitter": s, "faults": 2 if t else 1}))
    for d in (False, True):
        out.append(("restore", {"dels": d, "form": "dir", "faults": 2 if t else 1}))
    out.append(("restore", {"dels": True, "form": "zip", "faults": 1}))
    for k in ("plain", "head"):
        out.append(("amend", {"kind": k, "faults": 2 if t else 1}))
    out.append(("edit", {}))
    out.append(("rich", {}))
    return out


class Faults(object):
    """makes one (or two) of the operations fail; which is symbolic"""

    def __init__(self, ctx, n, limit=300):
        self.ctx = ctx
        self.k = [ctx.int("fault%d" % i, 0, limit) for i in range(n)]
        self.count = 0
        self.on = True
        self.limit = limit
        ctx.on_fault(self.hit)

    def hit(self, op, path, path2):
        if not self.on or op not in OPS:
            return
        self.count = self.count + 1
        for k in self.k:
            if k == self.count:
                raise OSError(5, "simulated failure")

    def off(self):
        self.on = False


def attempt(ctx, flt, fn):
    try:
        fn()
        ctx.cover("completed")
    except Exception:
        ctx.cover("failed part-way")
    flt.off()


def run(ctx, case, **p):
    from multibag import split, restore, amend
    if case == "split":
        src = ctx.path("src")
        files = [("data/a", "a", 3), ("data/x/b", "b", 2), ("meta/c", "c", 1)]
        info = [("X-A", "1")]
        td = "mb" if p["kind"] == "head2" else "multibag"
        if p["kind"] != "plain":
            if p["kind"] != "left":
                ctx.cover("head bag split")
                info += [("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.0"), ("Multibag-Tag-Directory", td)]
            files += [(td + "/member-bags.tsv", "old\nsrc\n"), (td + "/file-lookup.tsv", "data/a\tsrc\ndata/o\told\n"),
                      (td + "/aggregation-info.txt", "X-A: 0\n"), (td + "/deleted.txt", "data/q\n")]
        mkbag(ctx, src, files, ("sha256",), info, ("sha256",))
        before = ctx.snapshot(src)
        ctx.mkdir(ctx.path("out"))
        flt = Faults(ctx, p["faults"])

        def go():
            if p["splitter"] == "complete":
                plan = split.SplitPlan(src)
                plan.complete_plan()
                drain(plan.apply_iter(ctx.path("out")))
            else:
                mksplitter(p["splitter"], 4).split(src, ctx.path("out"))
        attempt(ctx, flt, go)
        same_tree(ctx, before, ctx.snapshot(src), "the bag being split")
        for d in ctx.snapshot(ctx.path("out")):
            if d.endswith("/data/a") and ctx.same_file(ctx.path("out") + "/" + d, src + "/data/a"):
                ctx.cover("hard link")
    elif case == "restore":
        td = ctx.choice("td", ["multibag", "mb"])
        ms = [{"name": "m", "files": [("data/a", "a", 3), ("data/x/b", "b", 2), ("data/e/",)], "form": p["form"],
               "fetch": [("http://e.org/1", "5", "data/f")]},
              {"name": "h", "files": [("data/a", "ha", 4), ("meta/c", "c", 1)]}]
        agg = Agg(ctx, ctx.path("in"), ms, ["data/x/b"] if p["dels"] else [], tagdir=td, agginfo="X-A: 1\n")
        before = ctx.snapshot(ctx.path("in"))
        flt = Faults(ctx, p["faults"])
        attempt(ctx, flt, lambda: restore.restore_bag(agg.head, ctx.path("dest"), ctx.path("in")))
        same_tree(ctx, before, ctx.snapshot(ctx.path("in")), "the member bags")
    elif case == "amend":
        if p["kind"] == "plain":
            ctx.cover("amend plain")
            mkbag(ctx, ctx.path("in") + "/h", [("data/a", "a", 3), ("data/x/b", "b", 2)])
        else:
            ctx.cover("amend head")
            Agg(ctx, ctx.path("in"), [{"name": "m", "files": [("data/a", "a", 3)]},
                                      {"name": "h", "files": [("data/x/b", "b", 2)], "info": [("Multibag-Head-Deprecates", "0.9")]}], ["data/q"])
        mkbag(ctx, ctx.path("up") + "/u1", [("data/n", "n", 1)])
        mkbag(ctx, ctx.path("new") + "/u2", [("data/a", "na", 4)])
        before = ctx.snapshot(ctx.path("in"))
        up = ctx.snapshot(ctx.path("up"))
        flt = Faults(ctx, p["faults"])
        attempt(ctx, flt, lambda: amend.amend_bag_with(ctx.path("in") + "/h", ctx.path("new") + "/u2", "2.0", ctx.path("up") + "/u1"))
        same_tree(ctx, before, ctx.snapshot(ctx.path("in")), "the bag being amended")
        same_tree(ctx, up, ctx.snapshot(ctx.path("up")), "the additional amending bag")
    elif case == "rich":
        op = ctx.choice("op", ["well", "neigh", "complete", "restore", "amend"])
        form = ctx.choice("form", ["dir", "zip", "object"])
        td = ctx.choice("td", ["multibag", "mb/x"])
        big = ctx.flag("one output")
        name = "in"
        if op in ("well", "neigh", "complete"):
            if form != "dir" and op != "complete":
                # the splitters take the path of a directory
                ctx.stop()
            info = [("X-A", "1"), ("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.0"), ("Multibag-Tag-Directory", td)]
            mkbag(ctx, ctx.path("in", "src"), rich() + [(td + "/member-bags.tsv", "old\nsrc\n"), (td + "/file-lookup.tsv", "data/a\tsrc\ndata/o\told\n"), (td + "/deleted.txt", "data/q\n"), (td + "/aggregation-info.txt", "X-A: 0\n")], ("sha256", "md5"), info, ("sha256",))
            src = ctx.path("in", "src")
            if form == "zip":
                ctx.archive(src + ".zip", "zip", src, "src")
                src = src + ".zip"
            before = ctx.snapshot(ctx.path("in"))
            if form == "object":
                from multibag.access.extended import as_extended, ExtendedReadWritableBag
                src = ExtendedReadWritableBag(src)
            ctx.mkdir(ctx.path("out"))
            if op == "complete":
                plan = split.SplitPlan(src)
                plan.complete_plan()
                drain(plan.apply_iter(ctx.path("out")))
            else:
                mksplitter(op, 10000 if big else 12).split(src, ctx.path("out"))
        elif op == "restore":
            fs = rich()
            agg = Agg(ctx, ctx.path("in"), [{"name": "m", "files": fs, "form": "zip" if form == "zip" else "dir", "fetch": [("http://e.org/1", "5", "data/f")]}, {"name": "h", "files": fs[::3]}], [fs[4][0], "meta"], tagdir=td, agginfo="X-A: 1\n" if big else None)
            before = ctx.snapshot(ctx.path("in"))
            head = agg.head
            if form == "object":
                from multibag.access.multibag import HeadBag
                head = HeadBag(head)
            restore.restore_bag(head, ctx.path("dest"), ctx.path("in"))
        else:
            Agg(ctx, ctx.path("in"), [{"name": "m", "files": rich()}, {"name": "h", "files": rich()[::2], "info": [("Multibag-Head-Deprecates", "0.9")], "form": "zip" if form == "zip" else "dir"}], ["data/q"], tagdir=td)
            mkbag(ctx, ctx.path("in") + "/u1", rich()[::3])
            mkbag(ctx, ctx.path("new") + "/u2", rich()[::4])
            before = ctx.snapshot(ctx.path("in"))
            h = ctx.path("in") + "/h" + (".zip" if form == "zip" else "")
            if form == "object":
                from multibag.access.multibag import HeadBag
                h = HeadBag(h)
            amend.amend_bag_with(h, ctx.path("new") + "/u2", "2.0", ctx.path("in") + "/u1")
        same_tree(ctx, before, ctx.snapshot(ctx.path("in")), "the source bags")
    else:
        # outputs that share files with the source by hard link are worked on afterwards
        src = ctx.path("src")
        td = ctx.choice("td", ["multibag", "mb"])
        files = [("data/a", "a", 3), ("data/x/b", "b", 2), ("meta/c", "c", 1)]
        info = [("X-A", "1")]
        if ctx.flag("head"):
            info += [("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.0"), ("Multibag-Tag-Directory", td)]
            files += [(td + "/member-bags.tsv", "src\n"), (td + "/file-lookup.tsv", "data/a\tsrc\n")]
        mkbag(ctx, src, files, ("sha256",), info)
        before = ctx.snapshot(src)
        out = ctx.path("out")
        ctx.mkdir(out)
        dirs = drain(mksplitter("well", ctx.choice("max", [3, 1000])).plan(src).apply_iter(out))
        same_tree(ctx, before, ctx.snapshot(src), "the bag being split")
        how = ctx.choice("how", ["restore", "amend", "amended", "edit", "save", "convert", "move", "info"])
        ctx.cover("output edited")
        if how == "restore":
            # the source bag itself is a member of the new aggregation if it was a head bag
            restore.restore_bag(dirs[-1], None, None, lambda name, to: src)
        elif how == "amend":
            mkbag(ctx, out + "/u", [("data/n", "n", 1)])
            amend.amend_bag_with(dirs[-1], out + "/u", "2.0")
        elif how == "amended":
            mkbag(ctx, ctx.path("o", "u"), [("data/n", "n", 1)])
            amend.amend_bag_with(ctx.path("o", "u"), dirs[-1], "2.0")
        elif how in ("save", "info"):
            from multibag.access.extended import ExtendedReadWritableBag
            for d in dirs:
                wb = ExtendedReadWritableBag(d)
                wb.info["X-A"] = "2"
                if how == "save":
                    wb.save(manifests=True)
                else:
                    wb.update_oxum()
                    wb.update_bag_size()
                    wb.save()
        elif how == "convert":
            for d in dirs:
                amend.make_single_multibag(d, "3")
        elif how == "move":
            from multibag.access.multibag import HeadBag
            for d in dirs:
                hb = HeadBag(d)
                hb.clear_file_lookup()
                hb.set_multibag_tag_dir("other")
                hb.add_member_bag("zz")
                hb.save_member_bags()
                hb.update_for_member(hb)
                hb.save_file_lookup()
                hb.update_info("4")
        else:
            from multibag.access.multibag import HeadBag
            hb = HeadBag(dirs[-1])
            hb.add_member_bag("zz")
            hb.add_file_lookup("data/zz", "zz")
            hb.set_deleted("data/q")
            hb.save_member_bags()
            hb.save_file_lookup()
            hb.save_deleted()
        same_tree(ctx, before, ctx.snapshot(src), "the bag that was split")
