import os, sys, io, hashlib, tempfile, zipfile


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with io.open(path, "w", encoding="utf-8", newline="") as fd:
        fd.write(text)


def read(path):
    with io.open(path, encoding="utf-8", newline="") as fd:
        return fd.read()


def mkbag(root, files, info=(), alg="sha256", tagman=False):
    """a valid bag with the given files {path: text}"""
    os.makedirs(root + "/data", exist_ok=True)
    write(root + "/bagit.txt", "BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n")
    for f in files:
        if f.endswith("/"):
            os.makedirs(root + "/" + f)
        else:
            write(root + "/" + f, files[f])
    pay = [f for f in files if f.startswith("data/") and not f.endswith("/")]
    tot = sum(len(files[f].encode()) for f in pay)
    write(root + "/bag-info.txt", "".join("%s: %s\n" % kv for kv in info) + "Payload-Oxum: %d.%d\n" % (tot, len(pay)))
    write(root + "/manifest-%s.txt" % alg, "".join("%s  %s\n" % (hashlib.new(alg, files[f].encode()).hexdigest(), f) for f in pay))
    if tagman:
        tags = [f for f in files if not f.startswith("data/") and not f.endswith("/")]
        write(root + "/tagmanifest-%s.txt" % alg, "".join("%s  %s\n" % (hashlib.new(alg, files[f].encode()).hexdigest(), f) for f in tags))
    return root


def mkhead(root, files, members, lookup=(), deleted=(), info=()):
    """a head bag; members: lines, lookup: (path, bag), deleted: paths"""
    mkbag(root, files, list(info) + [("Multibag-Version", "0.4"), ("Multibag-Tag-Directory", "multibag"), ("Multibag-Head-Version", "1")])
    write(root + "/multibag/member-bags.tsv", "".join(m + "\n" for m in members))
    write(root + "/multibag/file-lookup.tsv", "".join("%s\t%s\n" % x for x in lookup))
    if deleted:
        write(root + "/multibag/deleted.txt", "".join(d + "\n" for d in deleted))
    return root


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), root)] = read(os.path.join(d, f))
    return out


def zipbag(root, dest):
    with zipfile.ZipFile(dest, "w") as z:
        base = os.path.dirname(root)
        for d, ds, fs in os.walk(root):
            z.write(d, os.path.relpath(d, base))
            for f in fs:
                z.write(os.path.join(d, f), os.path.relpath(os.path.join(d, f), base))
    return dest


W = tempfile.mkdtemp()
