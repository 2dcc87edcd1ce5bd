"""Differential validation of the instrumentation and of the virtual environment: the repository's
own test modules are executed *instrumented, inside the virtual file system*, and must pass there
as they do natively.  usage: python3-vt -m sx.suite [pattern]"""
import os
import sys
import traceback
import unittest
import zipfile

from . import core
core.start()
from . import hooks, instr

MODS = ["multibag.test_constants", "multibag.test_split", "multibag.test_restore", "multibag.test_amend",
        "multibag.access.test_bagit_fs", "multibag.access.test_bagit_imported",
        "multibag.access.test_multibag", "multibag.access.test_extended",
        "multibag.validate.test_member", "multibag.validate.test_bag", "multibag.validate.test_base",
        "multibag.validate.test_headbag", "multibag.testing.test_mkdata"]


def preload(v, real, virt):
    V = v.V
    V.mkdirs(virt)
    for root, dirs, files in os.walk(real):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        vr = virt + root[len(real):]
        V.mkdirs(vr)
        for f in files:
            n = V.create(vr + "/" + f)
            p = os.path.join(root, f)
            with open(p, "rb") as fd:
                n.content = v.SymBytes([fd.read()])
            if f.endswith(".zip"):
                n.fmt = "zip"
                n.tree = v.Inode(V, "d")
                with zipfile.ZipFile(p) as z:
                    for nm in z.namelist():
                        cur = n.tree
                        parts = [x for x in nm.split("/") if x]
                        for i, x in enumerate(parts):
                            c = cur.find(x)
                            if c is None:
                                c = v.Inode(V, "d" if i < len(parts) - 1 or nm.endswith("/") else "f")
                                cur.entries.append([x, c])
                            cur = c
                        if not nm.endswith("/"):
                            cur.content = v.SymBytes([z.read(nm)])


def system(v):
    def run(cmd):
        w = cmd.replace(";", " ").split()
        assert w[0] == "cd"
        if w[2] == "zip":
            n = v.V.create(v.vpath.join(w[1], w[4]))
            n.fmt = "zip"
            n.tree = v.Inode(v.V, "d")
            n.tree.entries.append([w[5], v.V.lookup(v.vpath.join(w[1], w[5]))])
            n.content = v.SymBytes([b"zip"])
        else:
            n = v.V.lookup(v.vpath.join(w[1], w[4]))
            d = v.V.lookup(w[1])
            d.entries.extend(n.tree.entries)
        return 0
    return run


def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    v = instr.boot()
    ok, bad, odd = 0, [], []
    sys.modules["bagit"] = instr.load("bagit")
    unittest.TestCase.assertEquals = unittest.TestCase.assertEqual
    v.vos.system = system(v)
    for mn in MODS:
        m = instr.load("tests") and instr._import("tests." + mn, None, None, ("x",))
        suite = unittest.defaultTestLoader.loadTestsFromModule(m)
        for case in _flat(suite):
            name = case.id()
            if pat and pat not in name:
                continue
            v.reset()
            v.V.mkdirs("/tmp")
            preload(v, os.path.join(instr.REPO, "tests", "multibag", "access", "data"),
                    os.path.join(instr.REPO, "tests", "multibag", "access", "data"))
            v.V.cwd = instr.REPO
            core.ENG.reset(b"", ())
            res = unittest.TestResult()
            try:
                case.run(res)
            except core.EngineSignal as ex:
                odd.append((name, "%s: %s" % (type(ex).__name__, ex)))
                if pat:
                    traceback.print_exc()
                continue
            if res.wasSuccessful():
                ok += 1
            else:
                tb = (res.errors + res.failures)[0][1]
                bad.append((name, tb if pat else tb.strip().splitlines()[-1]))
    print("passed", ok, "failed", len(bad), "unsupported", len(odd))
    for n, t in bad:
        print("FAIL", n, t)
    for n, t in odd:
        print("UNSUP", n, t)
    return 1 if bad else 0


def _flat(s):
    for x in s:
        if isinstance(x, unittest.TestSuite):
            for y in _flat(x):
                yield y
        else:
            yield x


if __name__ == "__main__":
    sys.exit(main())
