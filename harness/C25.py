"""Bag sizes are stated to four significant digits in the right unit."""
from harness.lib import mkbag

COVERS = ["bytes", "kB", "MB", "GB", "TB", "exact", "rounded", "head bag", "extended bag", "restored", "written"]
BOUNDS = {"quick": "any byte count up to 10^15 - 1 (digits as symbolic decimals, division exact, either neighbour at a tie); bags with one payload file of 12 sizes up to 12 MB, with and without 3 directories more and an earlier size (3 of them) and one of 9 files with unusual names, as head bag updates, size updates, repeated updates and restorations",
          "thorough": "as quick, with a payload file of any size up to 2000 bytes"}
OUTSIDE = "the rounding errors of binary floating-point numbers (1 part in 10^15); what directories count for (between nothing and 4096 bytes each, as far as the file system says); 40 bytes for the size entry itself"
BUDGET = {"quick": 150, "thorough": 900}
SIZES = [0, 1, 300, 700, 999, 9000, 98765, 990000, 999500, 1234567, 9999900, 12000000]
UNITS = [("B", 0), ("kB", 1), ("MB", 2), ("GB", 3), ("TB", 4)]


def cases(tier):
    t = tier == "thorough"
    return ([("format", {"kind": k, "unit": u}) for k in ("head", "extended") for u in range(5)] +
            [("update", {"kind": k, "any": t}) for k in ("head", "extended", "again", "restore")])


def check_text(ctx, text, lo, hi=None):
    """text states a number of bytes in lo..hi (or lo), to four significant digits"""
    if hi is None:
        hi = lo
    num, _, unit = text.partition(" ")
    u = dict(UNITS).get(unit)
    ctx.check(u is not None, "the size ends in a unit")
    ip, _, fp = num.partition(".")
    ctx.check(ip != "" and not (ip != "0" and ip.startswith("0")), "the number is plain")
    ctx.check(("." in num) == (fp != ""), "the number has no dangling point")
    v = int(ip + fp)
    scale = 10 ** len(fp)
    one = 1000 ** u
    # the largest unit that fits
    if u < 4:
        ctx.check(lo < 1000 * one, "the unit is not too small")
    if u > 0:
        ctx.check(hi >= one, "the unit is not too large")
    # value v/scale units; off by at most half of the fourth digit
    d = 1
    while d < 6 and hi >= 10 ** d * one:
        d = d + 1
    # tolerance: 10**(d-4) * one / 2, plus one part in 10^9
    tol_num, tol_den = (10 ** (d - 4) * one, 2) if d >= 4 else (one, 2 * 10 ** (4 - d))
    up = (v * one - hi * scale) * tol_den
    dn = (lo * scale - v * one) * tol_den
    lim = tol_num * scale
    ctx.check(up * 10 ** 9 <= lim * (10 ** 9 + 1), "the size is not overstated by more than half a fourth digit")
    ctx.check(dn * 10 ** 9 <= lim * (10 ** 9 + 1), "the size is not understated by more than half a fourth digit")
    ctx.cover(unit if u else "bytes")
    return v * one, scale


def content(ctx, root):
    snap = ctx.snapshot(root)
    n = 0
    for k in snap:
        if snap[k][0] == "f":
            n = n + ctx.size_of(root + "/" + k)
    return n, len([k for k in snap if snap[k][0] == "d"])


def run(ctx, case, **p):
    from multibag.access.multibag import HeadBag
    from multibag.access.extended import ExtendedReadWritableBag, as_extended
    from multibag.access.bagit import Bag
    ctx.digits()
    root = ctx.path("b", "b")
    if case == "format":
        u = p["unit"]
        n = ctx.int("n", 1000 ** u if u else 0, 1000 ** (u + 1) - 1)
        mkbag(ctx, root, [("data/a", "a", 1)])
        if p["kind"] == "head":
            ctx.cover("head bag")
            text = HeadBag(root)._format_bytes(n)
        else:
            ctx.cover("extended bag")
            b = ExtendedReadWritableBag(root)
            b.calc_bag_size = lambda: n
            b.update_bag_size()
            text = b.info["Bag-Size"]
        got, scale = check_text(ctx, text, n)
        if got == n * scale:
            ctx.cover("exact")
        else:
            ctx.cover("rounded")
        return
    files = [("data/a", "a", ctx.int("s", 0, 2000) if p["any"] else ctx.choice("s", SIZES))]
    if ctx.flag("tags"):
        files += [("data/d/e/f", "f", 100), ("meta/t", "t", 3000)]
    # a file that is easily left out
    odd = ctx.choice("odd", [None, "data/.h", "meta/.t", ".x", "data/e~", "data/d/.e/f", "data/a b", "data/bagit.txt", "multibag2/x", "Data"])
    if odd is not None:
        files.append((odd, "odd", 7000))
    info = [("Source-Organization", "x")]
    if ctx.flag("had"):
        info.append(("Bag-Size", ctx.choice("old", ["1 B", "999.9 GB", ""])))
    mkbag(ctx, root, files, info=info)
    ctx.cover("written")
    if p["kind"] == "head":
        ctx.cover("head bag")
        hb = HeadBag(root)
        hb.update_info("1")
        n, nd = content(ctx, root)
        check_text(ctx, one(ctx, root), n - 40, n + 40)
    elif p["kind"] in ("extended", "again"):
        ctx.cover("extended bag")
        b = ExtendedReadWritableBag(root)
        for i in range(2 if p["kind"] == "again" else 1):
            sz = b.update_bag_size()
            b.save()
        n, nd = content(ctx, root)
        ctx.check(n - 40 <= sz, "no file is left out of the size")
        ctx.check(sz <= n + 40 + 4096 * nd, "nothing is counted twice")
        check_text(ctx, one(ctx, root), sz)
    else:
        ctx.cover("restored")
        from multibag.amend import make_single_multibag
        from multibag.restore import restore_bag
        make_single_multibag(root)
        ctx.mkdir(ctx.path("o"))
        restore_bag(root, ctx.path("o") + "/r")
        out = ctx.path("o") + "/r"
        n, nd = content(ctx, out)
        check_text(ctx, one(ctx, out), n - 40, n + 40 + 4096 * nd)


def one(ctx, root):
    lines = [ln for ln in ctx.text_of(root + "/bag-info.txt").split("\n") if ln.startswith("Bag-Size:")]
    ctx.check(len(lines) == 1, "the size is stated once")
    return lines[0][len("Bag-Size:"):].strip()
