"""Generated test data sets have exactly the requested sizes."""
from harness.lib import drain

COVERS = ["rounded up", "rounded down", "even", "fewer bytes than files", "inventory", "empty file", "full lines only", "short last line", "overwritten", "default plan", "name collision",
          "remainder", "no remainder", "shared directories", "repeated", "nested", "rest"]
BOUNDS = {"quick": "totals up to 10^9 over 1-20 files; files of up to 6000 bytes; data sets of up to 5 files of together up to 600 bytes in 6 kinds of layout, any names drawn at random with up to one collision",
          "thorough": "1-40 files; files of up to 6300 bytes; data sets of up to 6 files and 800 bytes"}
OUTSIDE = "totals beyond 2^53 (floating point); plans whose directives ask for more than the totals, have repetitions without totals or get fewer files than directives; a total of 0 bytes (makes no files); what is written into the files"
BUDGET = {"quick": 150, "thorough": 1500}


def cases(tier):
    t = tier == "thorough"
    out = [("uniform", {"n": 40 if t else 20}), ("inventory", {}), ("file", {"top": 6300 if t else 6000})]
    out.append(("default", {"top": 800 if t else 600, "n": 6 if t else 5}))
    for k in ("remainder", "shared", "reps", "inventory", "nested", "rest"):
        out.append(("plan", {"kind": k, "top": 250 if t else 120}))
    return out


def even(ctx, sizes, total, n, what):
    """sizes are n numbers as equal as possible that sum to total"""
    ctx.check(len(sizes) == n, what + ": as many files as asked for")
    s = 0
    lo = hi = sizes[0] if sizes else 0
    for x in sizes:
        ctx.check(x >= 0, what + ": no negative size")
        s = s + x
        if x < lo:
            lo = x
        if x > hi:
            hi = x
    ctx.check(hi - lo <= 1, what + ": sizes as equal as possible")
    ctx.check(s == total or n == 0, what + ": the sizes sum to the total")


class Draw(object):
    """the random numbers: distinct ones, or once the one drawn before"""

    def __init__(self, ctx, collide):
        self.ctx = ctx
        self.n = 0
        self.at = collide

    def __call__(self, n):
        self.n = self.n + 1
        if self.at is not None and self.n == self.at + 1:
            return (self.n - 2) % n
        return (self.n - 1) % n


def layout(ctx, dest):
    """{directory: [file sizes]}"""
    out = {"": []}
    snap = ctx.snapshot(dest)
    for k in snap:
        if snap[k][0] == "d":
            out.setdefault(k, [])
    for k in snap:
        if snap[k][0] == "f":
            d = k.rsplit("/", 1)[0] if "/" in k else ""
            out[d].append(ctx.size_of(dest + "/" + k))
    return out


def tot(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def run(ctx, case, **p):
    from multibag.testing import mkdata
    if case == "uniform":
        n = ctx.choice("n", list(range(1, p["n"] + 1)))
        tz = ctx.int("total", 0, 10 ** 9)
        how = ctx.choice("how", ["given", "set"])
        if how == "given":
            it = mkdata.UniformSizeIterator(tz, n)
        else:
            it = mkdata.UniformSizeIterator()
            it.target_totalsize = tz
            it.target_totalfiles = n
        sizes = list(it.iterate())
        even(ctx, sizes, tz, n, "uniform")
        ctx.check(it.totalfiles == n, "the number of files told")
        ctx.check(it.totalsize == tz, "the total size told")
        if tz < n:
            ctx.cover("fewer bytes than files")
        if sizes[0] * n == tz:
            ctx.cover("even")
        elif sizes[0] * n > tz:
            ctx.cover("rounded up")
        else:
            ctx.cover("rounded down")
        again = list(it.iterate())
        ctx.check(len(again) == len(sizes), "the sizes can be iterated again")
        for i in range(len(sizes)):
            ctx.check(again[i] == sizes[i], "the same sizes again")
    elif case == "known-zero":
        # the recorded finding: no files are asked for
        it = mkdata.UniformSizeIterator(p["total"], 0)
        ctx.check(list(it.iterate()) == [], "no sizes if no files are asked for")
    elif case == "inventory":
        ctx.cover("inventory")
        inv = {}
        keys = [0, 7, 30, 1000]
        for k in keys:
            c = ctx.int("c%d" % k, 0, 3)
            if ctx.flag("has%d" % k):
                inv[k] = c
        it = mkdata.InventorySizeIterator(inv)
        sizes = list(it.iterate())
        n, t = 0, 0
        for k in keys:
            c = inv.get(k, 0)
            ctx.check(len([x for x in sizes if x == k]) == c, "as many files of each size as in the inventory")
            n, t = n + c, t + k * c
        ctx.check(len(sizes) == n and it.totalfiles == n and it.totalsize == t, "no other files")
    elif case == "file":
        sz = ctx.int("size", 0, p["top"])
        dest = ctx.path("f")
        if ctx.flag("there"):
            ctx.cover("overwritten")
            ctx.write(dest, "something longer than nothing")
        r = mkdata.create_file(dest, sz)
        ctx.check(ctx.isfile(dest), "the file is created")
        ctx.check(ctx.size_of(dest) == sz, "the file has the size asked for")
        ctx.check(r == sz, "the size is returned")
        if sz == 0:
            ctx.cover("empty file")
        elif sz % 100 == 0:
            ctx.cover("full lines only")
        else:
            ctx.cover("short last line")
    elif case == "default":
        ctx.cover("default plan")
        n = ctx.choice("n", list(range(1, p["n"] + 1)))
        tz = ctx.int("total", 1, p["top"])
        col = ctx.choice("collide", [None, 1, 2])
        if col is not None:
            ctx.cover("name collision")
        ctx.on_random(Draw(ctx, col))
        dest = ctx.path("d")
        mkdata.mkdataset(dest, tz, n)
        got = layout(ctx, dest)
        ctx.check(list(got.keys()) == [""], "no directories")
        even(ctx, got[""], tz, n, "data set")
    else:
        kind = p["kind"]
        ctx.on_random(Draw(ctx, 2))
        dest = ctx.path("d")
        s1, s2 = ctx.int("s1", 1, p["top"]), ctx.int("s2", 1, p["top"])
        n1, n2 = ctx.choice("n1", [1, 2]), ctx.choice("n2", [1, 2])
        if kind == "remainder":
            r = ctx.int("r", 0, p["top"])
            ctx.cover("remainder" if r > 0 else "no remainder")
            k = 2 if r > 0 else 0
            plan = {"files": [{"totalsize": s1, "totalfiles": n1}], "dirs": [{"totalsize": s2, "totalfiles": n2}]}
            mkdata.mkdataset(dest, s1 + s2 + r, n1 + n2 + k, plan)
            got = layout(ctx, dest)
            subs = [d for d in got if d != ""]
            ctx.check(len(subs) == 1, "one directory")
            even(ctx, got[subs[0]], s2, n2, "directory")
            ctx.check(len(got[""]) == n1 + k and tot(got[""]) == s1 + r, "the top directory holds the rest")
        elif kind == "shared":
            ctx.cover("shared directories")
            ctx.assume(s1 >= 2)
            mkdata.mkdataset(dest, s1, n1 + n2, {"dirs": 2})
            got = layout(ctx, dest)
            subs = [d for d in got if d != ""]
            ctx.check(len(subs) == 2 and got[""] == [], "two directories and no other files")
            a, b = got[subs[0]], got[subs[1]]
            ctx.check(len(a) + len(b) == n1 + n2 and -1 <= len(a) - len(b) <= 1, "the files are shared evenly")
            ctx.check(tot(a) + tot(b) == s1 and -1 <= tot(a) - tot(b) <= 1, "the bytes are shared evenly")
        elif kind == "reps":
            ctx.cover("repeated")
            plan = {"files": [{"totalsize": s1, "totalfiles": n1, "reps": 2}], "dirs": [{"totalsize": s2, "totalfiles": n2, "reps": 2}]}
            mkdata.mkdataset(dest, s1 * 2 + s2 * 2, n1 * 2 + n2 * 2, plan)
            got = layout(ctx, dest)
            subs = [d for d in got if d != ""]
            ctx.check(len(subs) == 2, "two directories")
            for d in subs:
                even(ctx, got[d], s2, n2, "directory")
            ctx.check(len(got[""]) == n1 * 2 and tot(got[""]) == s1 * 2, "two sets of files")
        elif kind == "inventory":
            plan = {"files": [{"type": "inventory", "sizes": {5: n1, 120: 1}}, {}]}
            mkdata.mkdataset(dest, 5 * n1 + 120 + s1, n1 + 1 + n2, plan)
            got = layout(ctx, dest)[""]
            ctx.check(len(got) == n1 + 1 + n2 and tot(got) == 5 * n1 + 120 + s1, "inventory and rest")
            rest = list(got)
            for x in [120] + [5] * n1:
                hit = None
                for i in range(len(rest)):
                    if rest[i] == x:
                        hit = i
                        break
                ctx.check(hit is not None, "the files of the inventory are there")
                rest.pop(hit)
            even(ctx, rest, s1, n2, "rest")
        elif kind == "nested":
            ctx.cover("nested")
            plan = {"files": [{"totalsize": 10, "totalfiles": 1}],
                    "dirs": [{"totalsize": s1 + s2, "totalfiles": n1 + n2, "files": [{"totalsize": s1, "totalfiles": n1}], "dirs": [{"totalsize": s2, "totalfiles": n2}]}]}
            mkdata.mkdataset(dest, s1 + s2 + 10, n1 + n2 + 1, plan)
            got = layout(ctx, dest)
            ctx.check(len(got) == 3 and got[""] == [10], "the top directory")
            for d in got:
                if d != "":
                    if "/" in d:
                        even(ctx, got[d], s2, n2, "inner directory")
                    else:
                        even(ctx, got[d], s1, n1, "outer directory")
        else:
            ctx.cover("rest")
            plan = {"files": [{"totalsize": s1, "totalfiles": n1}], "dirs": [{}]}
            mkdata.mkdataset(dest, s1 + s2, n1 + n2, plan)
            got = layout(ctx, dest)
            even(ctx, got[""], s1, n1, "files")
            subs = [d for d in got if d != ""]
            ctx.check(len(subs) == 1, "one directory")
            even(ctx, got[subs[0]], s2, n2, "directory with the rest")
