"""building aggregations and the independent model of what restoring them must give"""
from harness.lib import mkbag, lines_of

STD = ("bagit.txt", "bag-info.txt", "fetch.txt")


def is_std(p):
    if "/" in p:
        return False
    if p in STD:
        return True
    return (p.startswith("manifest-") or p.startswith("tagmanifest-")) and p.endswith(".txt")


class Agg(object):
    """members: list of dicts(name, files, algs, fetch, form, info, tagman); the last is the head bag"""

    def __init__(self, ctx, root, members, deleted=None, tagdir="multibag", agginfo=None, settag=True, tagman=(), lookup=True,
                 deltext=None, age=-1):
        self.ctx = ctx
        self.root = root
        self.members = members
        self.deleted = deleted or []
        self.tagdir = tagdir
        self.agginfo = agginfo
        self.snaps = {}
        self.paths = {}
        names = [m["name"] for m in members]
        for i, m in enumerate(members):
            files = list(m["files"])
            info = list(m.get("info", []))
            d = root + "/" + m["name"]
            if i == len(members) - 1:
                info = [("Multibag-Version", "0.4"), ("Multibag-Head-Version", "1.0")] + \
                       ([("Multibag-Tag-Directory", tagdir)] if settag else []) + info
                files.append((tagdir + "/member-bags.tsv", "".join([n + "\n" for n in names])))
                if lookup:
                    lines = []
                    for f in self.final():
                        lines.append("%s\t%s\n" % (f[0], f[1]["name"]))
                    files.append((tagdir + "/file-lookup.tsv", "".join(lines)))
                if deltext is not None:
                    files.append((tagdir + "/deleted.txt", deltext))
                elif self.deleted:
                    files.append((tagdir + "/deleted.txt", "".join([p + "\n" for p in self.deleted])))
                if agginfo is not None:
                    files.append((tagdir + "/aggregation-info.txt", agginfo))
            fetch = m.get("fetch", [])
            mkbag(ctx, d, files, m.get("algs", ("sha256",)), info, m.get("tagman", tagman))
            if fetch:
                ctx.write(d + "/fetch.txt", "".join(["%s %s %s\n" % f for f in fetch]))
                for a in m.get("algs", ("sha256",)):
                    t = ctx.text_of(d + "/manifest-%s.txt" % a)
                    ctx.write(d + "/manifest-%s.txt" % a, t + "".join(["%s  %s\n" % (fhash(a, f), f[2]) for f in fetch]))
            # by default, the files of earlier members have the later time stamps
            ctx.age(d, 100 + age * i)
            self.snaps[m["name"]] = ctx.snapshot(d)
            form = m.get("form", "dir")
            self.paths[m["name"]] = d
            if form != "dir":
                ext = {"zip": ".zip", "tgz": ".tgz", "tar": ".tar", "tar.gz": ".tar.gz", "tar.bz2": ".tar.bz2"}[form]
                ctx.archive(d + ext, "zip" if form == "zip" else "tar", d, m["name"])
                ctx.rmtree(d)
                self.paths[m["name"]] = d + ext
        self.head = self.paths[names[-1]]

    def is_deleted(self, p):
        for d in self.deleted:
            if p == d or p.startswith(d + "/"):
                return True
        return False

    def final(self):
        """[(path, member)] of the files the restored bag must have"""
        out = []
        for m in reversed(self.members):
            for f in m["files"]:
                if f[0].endswith("/") or self.is_deleted(f[0]):
                    continue
                if f[0] in [x[0] for x in out]:
                    continue
                out.append((f[0], m))
        return out

    def final_fetch(self):
        out = {}
        for m in self.members:
            for f in m.get("fetch", []):
                if not self.is_deleted(f[2]):
                    out[f[2]] = f
        return out

    def check_files(self, dest):
        ctx = self.ctx
        snap = ctx.snapshot(dest)
        ctx.check(snap is not None, "there is a restored bag")
        exp = self.final()
        for p, m in exp:
            ctx.check(p in snap and snap[p][0] == "f", "file %s is restored" % (p,))
            ctx.check(snap[p][1] == self.snaps[m["name"]][p][1], "file %s has the content of the last member providing it" % (p,))
        names = [x[0] for x in exp]
        for p in snap:
            if snap[p][0] == "f" and not is_std(p):
                ctx.check(p in names, "nothing else is in the restored bag (%s)" % (p,))
        for m in self.members:
            for f in m["files"]:
                if f[0].endswith("/") and not self.is_deleted(f[0][:-1]):
                    ctx.check(f[0][:-1] in snap, "empty directory is restored")
        return snap

    def check_manifests(self, dest):
        ctx = self.ctx
        exp = self.final()
        fetch = self.final_fetch()
        algs = []
        for m in self.members:
            for a in m.get("algs", ("sha256",)):
                if a not in algs:
                    algs.append(a)
        for a in ("md5", "sha1", "sha256", "sha512"):
            lines = lines_of(ctx, dest + "/manifest-%s.txt" % a)
            if a not in algs:
                ctx.check(lines is None, "no manifest of an algorithm nobody used")
                continue
            ctx.check(lines is not None, "there is a payload manifest for each algorithm used")
            got = {}
            for ln in lines:
                h, p = ln.split(None, 1)
                ctx.check(p not in got, "a file is listed once")
                got[p] = h
            for p, m in exp:
                if p.startswith("data/") and a in m.get("algs", ("sha256",)):
                    ctx.check(p in got, "the payload manifest lists %s" % (p,))
            for p in got:
                ctx.check(not self.is_deleted(p), "no deleted path is in a manifest")
                m = [x[1] for x in exp if x[0] == p]
                if m:
                    ctx.check(got[p] == ctx.digest(a, dest + "/" + p), "the checksum is that of the version restored (%s)" % (p,))
                else:
                    ctx.check(p in fetch, "the payload manifest lists restored or fetchable files only (%s)" % (p,))
                    ctx.check(got[p] == fhash(a, fetch[p]), "the checksum of a fetchable file is kept")
            for p in fetch:
                last = [m for m in self.members if p in [f[2] for f in m.get("fetch", [])]][-1]
                ctx.check(p in got or a not in last.get("algs", ("sha256",)), "a fetchable file stays listed")
            tl = lines_of(ctx, dest + "/tagmanifest-%s.txt" % a)
            for ln in tl or []:
                h, p = ln.split(None, 1)
                ctx.check(ctx.isfile(dest + "/" + p) and not p.startswith("data/"), "the tag manifest lists tag files of the restored bag only (%s)" % (p,))
                ctx.check(h == ctx.digest(a, dest + "/" + p), "the tag manifest's checksum is right (%s)" % (p,))

    def check_oxum(self, dest, info):
        ctx = self.ctx
        n, tot = 0, 0
        for p, m in self.final():
            if p.startswith("data/"):
                n = n + 1
                tot = tot + ctx.size_of(dest + "/" + p)
        ctx.check(info.get("Payload-Oxum") == "%s.%s" % (tot, n), "the payload totals are those of the restored payload")


def fhash(alg, f):
    """the checksum recorded for a fetchable file (depends on its url, so that versions differ)"""
    n = {"md5": 32, "sha1": 40, "sha256": 64, "sha512": 128}[alg]
    c = "0123456789abcdef"[sum([ord(x) for x in f[0]]) % 16] if isinstance(f[0], str) else "e"
    return c * n
