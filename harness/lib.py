"""helpers shared by the harnesses (run instrumented and natively)"""

BAGIT = "BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n"


def mkbag(ctx, root, files, algs=("sha256",), info=None, tagman=(), bagit=BAGIT, oxum=True, extra_info=()):
    """build a bag: files is a list of (path, tag, size) or (path, text); directories end in '/'.
    algs: payload manifest algorithms; tagman: tag manifest algorithms; info: list of (name, value)."""
    ctx.mkdir(root + "/data")
    ctx.write(root + "/bagit.txt", bagit)
    n, tot = 0, 0
    for f in files:
        p = root + "/" + f[0]
        if f[0].endswith("/"):
            ctx.mkdir(p[:-1])
            continue
        if len(f) == 3:
            ctx.blob(p, f[1], f[2])
        else:
            ctx.write(p, f[1])
        if f[0].startswith("data/"):
            n = n + 1
            tot = tot + ctx.size_of(p)
    lines = []
    for k, v in (info or []):
        lines.append("%s: %s\n" % (k, v))
    if oxum:
        lines.append("Payload-Oxum: %s.%s\n" % (tot, n))
    ctx.write(root + "/bag-info.txt", "".join(lines))
    for alg in algs:
        out = []
        for f in files:
            if f[0].startswith("data/") and not f[0].endswith("/"):
                out.append("%s  %s\n" % (ctx.digest(alg, root + "/" + f[0]), f[0]))
        ctx.write(root + "/manifest-%s.txt" % alg, "".join(out))
    for alg in tagman:
        out = []
        for f in files:
            if not f[0].startswith("data/") and not f[0].endswith("/"):
                out.append("%s  %s\n" % (ctx.digest(alg, root + "/" + f[0]), f[0]))
        for nm in ["bagit.txt", "bag-info.txt"] + ["manifest-%s.txt" % a for a in algs]:
            out.append("%s  %s\n" % (ctx.digest(alg, root + "/" + nm), nm))
        ctx.write(root + "/tagmanifest-%s.txt" % alg, "".join(out))


def same_tree(ctx, a, b, what):
    """two snapshots are identical"""
    if a is None or b is None:
        ctx.check(a is None and b is None, what + ": one of the trees is missing")
        return
    for k in a:
        ctx.check(k in b, what + ": %s is gone" % (k,))
        ctx.check(a[k][0] == b[k][0], what + ": %s changed kind" % (k,))
        if a[k][0] == "f":
            ctx.check(a[k][1] == b[k][1], what + ": content of %s changed" % (k,))
    for k in b:
        ctx.check(k in a, what + ": %s was added" % (k,))


def drain(it, limit=60):
    out = []
    for x in it:
        out.append(x)
        if len(out) > limit:
            break
    return out


def lines_of(ctx, path):
    t = ctx.text_of(path)
    if t is None:
        return None
    return [x for x in t.split("\n") if x]
