"""a source tree with the names, sizes and layouts that code tends to treat specially, all at once"""

PAYLOAD = [
    "data/a", "data/A", "data/a.txt", "data/a.TXT", "data/.hidden", "data/.d/x", "data/e1", "data/e2/f", "data/x/y/z", "data/x/y.z", "data/xy", "data/x y/f g", "data/p%20q", "data/p%q",
    "data/#h", "data/h#", "data/\u00e9", "data/bagit.txt", "data/bag-info.txt", "data/fetch.txt", "data/manifest-sha256.txt", "data/multibag/member-bags.tsv",
    "data/data/data", "data/meta/m", "data/~t", "data/t~", "data/0", "data/10", "data/9", "data/a,b;c", "data/[q]", "data/*s", "data/u\\n", "data/long" + "g" * 40, "data/x/y/x/y/z", "data/{0}", "data/ lead", "data/hd/.h", "data/t /f", "data/Up/f", "data/q'\"",
]
PAYLOAD_DIRS = ["data/e/", "data/x/e/", "data/.e/", "data/e e/"]
TAGS = ["data.md", "database/x", "about.txt", "About.txt", "meta/m", "meta/.h", "meta/a/data/b", "manifest.txt", "manifest-1-2.txt", "xmanifest-md5.txt", "bagit.txt.bak", "xbagit.txt",
        "notes/bagit.txt", "notes/manifest-md5.txt", "notes/fetch.txt", "multibags/member-bags.tsv", "meta/p%q", ".tag", ".meta/x", "Meta/x", "bag-info.txt~", "Bag-Info.txt", "BAGIT.TXT", "Fetch.txt", "Manifest-md5.txt"]
TAG_DIRS = ["meta/e/", "database/e/", "empty/"]


def rich(dirs=True, tags=True, payload=True, empty="data/0"):
    """[(path, tag, size)]; empty: the file without content"""
    out = []
    for i, p in enumerate((PAYLOAD if payload else PAYLOAD[:1]) + (TAGS if tags else [])):
        out.append((p, "r%d" % i, 0 if p == empty else 1 + (i * 7) % 11))
    if dirs:
        out += [(d,) for d in (PAYLOAD_DIRS if payload else []) + (TAG_DIRS if tags else [])]
    return out


