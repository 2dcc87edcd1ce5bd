"""Replicating a file succeeds faithfully or fails visibly."""
from harness.lib import mkbag, same_tree
from harness.C10 import Faults
from harness.rich import rich

COVERS = ["linked", "copied", "link fails", "copy fails", "directory creation fails", "log given", "directory", "absent path", "existing file", "already linked", "serialized", "parent is a file", "deep parent", "into itself"]
BOUNDS = {"quick": "a fixed tree of 66 files and 7 empty directories with unusual names, any of them; files of any size at any of 9 spellings of 4 paths, or path texts of up to 4 characters, with or without hard links and log; destination absent, present with other content or already linked; failures at any two of the file-system operations that change something",
          "thorough": "three failures; path texts of up to 5 characters"}
OUTSIDE = "an existing destination file that is itself hard-linked to some other file; failures of reads"
BUDGET = {"quick": 150, "thorough": 1500}
PATHS = [("data/a", "data/a"), ("data/d/e/b", "data/d/e/b"), ("data//d/e/b", "data/d/e/b"), ("./data/a", "data/a"), ("data/d/../a", "data/a"), ("meta.txt", "meta.txt"),
         ("data/d", None), ("data/empty/", None), ("data/nope", None)]


def cases(tier):
    t = tier == "thorough"
    out = []
    for view in ("writable", "read-only", "zip", "tar"):
        out.append(("main", {"view": view, "faults": (3 if t else 2) if view == "writable" else 1}))
        out.append(("text", {"view": view, "k": 5 if t else 4}))
        out.append(("rich", {"view": view}))
    return out


class Log(object):
    """a log that only counts"""

    def __init__(self):
        self.n = 0

    def debug(self, msg, *a, **kw):
        self.n = self.n + 1

    info = warning = warn = error = exception = critical = debug

    def log(self, level, msg, *a, **kw):
        self.n = self.n + 1


def open_view(ctx, root, view):
    from multibag.access.bagit import Bag, open_bag
    from multibag.access.extended import as_extended, ExtendedReadWritableBag
    if view == "writable":
        return ExtendedReadWritableBag(root)
    if view == "read-only":
        return as_extended(open_bag(root))
    ctx.cover("serialized")
    ctx.archive(root + "." + view, view, root, "b")
    return as_extended(open_bag(root + "." + view))


def run(ctx, case, **p):
    root = ctx.path("s", "b")
    dest = ctx.path("o", "out")
    if case == "main":
        mkbag(ctx, root, [("data/a", "a", ctx.int("s", 0, 10 ** 9)), ("data/d/e/b", "b", 7), ("data/empty/",), ("meta.txt", "hello\n")])
        path, target = PATHS[ctx.choice("path", list(range(len(PATHS))))]
        ctx.mkdir(dest)
        ctx.write(dest + "/other", "other")
        state = ctx.choice("state", ["absent", "exists", "linked", "parent is a file"])
        bag = open_view(ctx, root, p["view"])
        usable = True
        if state != "absent":
            if target is None or (state == "linked" and p["view"] != "writable") or (state == "parent is a file" and "/" not in target):
                ctx.stop()
            if state == "parent is a file":
                ctx.cover("parent is a file")
                ctx.write(dest + "/data", "no directory")
                usable = False
            else:
                ctx.mkdir(dest + "/" + "/".join(target.split("/")[:-1]))
                if state == "exists":
                    ctx.cover("existing file")
                    ctx.write(dest + "/" + target, "older")
                else:
                    ctx.cover("already linked")
                    bag.replicate_with_hardlink = True
                    bag.replicate(path, dest)
        link = False
        if p["view"] == "writable":
            link = ctx.flag("link")
            bag.replicate_with_hardlink = link
        log = Log() if ctx.flag("log") else None
        before = ctx.snapshot(root)
        outside = ctx.snapshot(ctx.path("s"))
        dbefore = ctx.snapshot(dest)
        seen = []
        flt = Faults(ctx, p["faults"], 12)
        base = flt.hit

        def hit(op, a, b):
            try:
                base(op, a, b)
            except OSError:
                seen.append(op)
                raise
        ctx.on_fault(hit)
        failed = False
        try:
            if log is None:
                bag.replicate(path, dest)
            else:
                ctx.cover("log given")
                bag.replicate(path, dest, log)
        except Exception:
            failed = True
        flt.off()
        for op, c in (("link", "link fails"), ("copy", "copy fails"), ("mkdir", "directory creation fails")):
            if op in seen:
                ctx.cover(c)
        same_tree(ctx, before, ctx.snapshot(root), "the source")
        same_tree(ctx, outside, ctx.snapshot(ctx.path("s")), "what is next to the source")
        dafter = ctx.snapshot(dest)
        for k in dbefore:
            if k != target:
                ctx.check(k in dafter and dafter[k][0] == dbefore[k][0] and (dbefore[k][0] != "f" or dafter[k][1] == dbefore[k][1]), "other files at the destination are not touched (%s)" % (k,))
        norm = target or path.strip("/")
        for k in dafter:
            if k not in dbefore:
                ctx.check(norm == k or norm.startswith(k + "/"), "nothing else is created at the destination (%s)" % (k,))
        if path == "data/nope":
            ctx.cover("absent path")
            ctx.check(failed, "replicating an absent path fails")
        elif target is None:
            ctx.cover("directory")
            ctx.check(failed or ctx.isdir(dest + "/" + norm), "a directory is replicated or an error raised")
            ctx.check(not failed or seen, "replicating a directory does not fail for nothing")
        else:
            if not failed:
                ctx.check(ctx.isfile(dest + "/" + target), "without an error there is a file at the destination")
                ctx.check(dafter[target][1] == before[target][1], "the file at the destination has the same bytes")
                if "/" in target:
                    ctx.cover("deep parent")
                if link and ctx.same_file(dest + "/" + target, root + "/" + target):
                    ctx.cover("linked")
                else:
                    ctx.cover("copied")
            else:
                ctx.check(not usable or seen, "replicating does not fail for nothing")
                if "copy" not in seen and "open-w" not in seen and "mkdir" not in seen and "rename" not in seen and "remove" not in seen:
                    ctx.check(not usable, "a failing hard link is made up for by copying")
    elif case == "rich":
        # any path of a tree with unusual names, into a place that has files of similar names
        files = rich()
        mkbag(ctx, root, files)
        f = files[ctx.choice("path", list(range(len(files))))]
        q = f[0].rstrip("/")
        bag = open_view(ctx, root, p["view"])
        if p["view"] == "writable":
            bag.replicate_with_hardlink = ctx.flag("link")
        ctx.mkdir(dest + "/data/x")
        ctx.blob(dest + "/data/a", "older", 3)
        ctx.blob(dest + "/data/0", "older", 3)
        ctx.blob(dest + "/data/x/y.z", "older", ctx.choice("size", [0, 5]))
        ctx.age(dest, 3000)
        before = ctx.snapshot(root)
        old = ctx.snapshot(dest)
        bag.replicate(q, dest)
        bag.replicate(q, dest)
        same_tree(ctx, before, ctx.snapshot(root), "the source")
        new = ctx.snapshot(dest)
        ctx.check(q in new, "%s is at the destination" % (q,))
        for k in new:
            if k == q:
                ctx.check(new[k][0] == before[k][0] and (new[k][0] == "d" or new[k][1] == before[k][1]), "%s has the same bytes" % (q,))
            elif k in old:
                ctx.check(new[k] == old[k], "other files are not touched (%s)" % (k,))
            else:
                ctx.check(new[k][0] == "d" and q.startswith(k + "/"), "nothing else is created (%s)" % (k,))
        for k in old:
            ctx.check(k in new, "nothing is removed (%s)" % (k,))
        # and with the others
        for g in files:
            bag.replicate(g[0].rstrip("/"), dest)
        new = ctx.snapshot(dest)
        for g in files:
            k = g[0].rstrip("/")
            ctx.check(k in new and new[k][0] == before[k][0] and (new[k][0] == "d" or new[k][1] == before[k][1]), "%s has the same bytes after all" % (k,))
    else:
        mkbag(ctx, root, [("data/a", "a", 3), ("a", "x", 2)])
        ctx.mkdir(dest)
        q = ctx.choice("top", ["data", "", "../b"]) + ctx.text("q", 1, p["k"], "/a.b")
        bag = open_view(ctx, root, p["view"])
        same = ctx.flag("into itself") and p["view"] == "writable"
        before = ctx.snapshot(root)
        failed = False
        try:
            bag.replicate(q, root if same else dest)
        except Exception:
            failed = True
        same_tree(ctx, before, ctx.snapshot(root), "the source")
        if same:
            ctx.cover("into itself")
        # where the path leads, by its text
        segs, esc = ["s", "b"], False
        if q.startswith("/"):
            if p["view"] == "writable":
                segs = []
        for x in q.split("/"):
            if x == "..":
                if not segs:
                    esc = True
                else:
                    segs.pop()
            elif x not in ("", "."):
                segs.append(x)
        inside = not esc and segs[:2] == ["s", "b"]
        t = "/".join(segs[2:])
        out = ctx.snapshot(dest)
        files = [k for k in out if out[k][0] == "f"]
        if same:
            ctx.check(files == [], "nothing is written elsewhere")
        elif failed:
            ctx.check(files == [], "after an error there is nothing at the destination")
            ctx.check(not inside or t not in ("data/a", "a") or ".." in q or q.endswith("/") or q.endswith("/."), "a file of the bag is replicated")
        elif inside and t in ("data/a", "a", "bagit.txt", "bag-info.txt", "manifest-sha256.txt"):
            ctx.check(files == [t], "exactly the file asked for is at the destination")
            ctx.check(out[t][1] == before[t][1], "the file has the same bytes")
        else:
            ctx.check(inside and t in ("", "data"), "only files and directories of the bag are replicated")
            ctx.check(files == [], "replicating a directory creates no files")
        ctx.check(sorted(ctx.snapshot(ctx.path("o")).keys()) == sorted(["out"] + ["out/" + k for k in out]), "nothing is created next to the destination")
        top = sorted([k for k in ctx.snapshot(ctx.path("s")).keys() if "/" not in k])
        ctx.check(top == (["b"] if p["view"] in ("writable", "read-only") else ["b", "b." + p["view"]]), "nothing is created next to the source")
