"""Try many small changes: tools/mutants.py FILE [ID...]; FILE defines M: list of (id, properties, file, old, new).
Applied to a scratch copy; those that pass the tests are given to the checks of the properties, until one reports."""
import os, subprocess, sys, shutil, time
sys.argv, args = [sys.argv[0], "none"], sys.argv[1:]
sys.path.insert(0, "/verif/tools")
import seed
V, R, sh = seed.V, seed.R, seed.sh
ns = {}
exec(open(args[0]).read(), ns)
for m in ns["M"]:
    i, props, f, old, new = m[:5]
    if args[1:] and i not in args[1:]:
        continue
    p = R + "/" + f
    s = open(p).read()
    n = s.count(old)
    if n != 1:
        print(i, "TEXT FOUND %d TIMES" % n, flush=True)
        continue
    open(p, "w").write(s.replace(old, new))
    try:
        ok, log = seed.tests()
        if not ok:
            print(i, "tests notice", log.splitlines()[0][:120], flush=True)
            continue
        t0 = time.time()
        res = []
        for prop in props.split():
            c = sh("SX_REPO=%s timeout 900 python3-vt -W ignore -m sx.run %s --tier quick" % (R, prop), cwd=V)
            if c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout:
                lines = [x for x in c.stdout.splitlines() if x.startswith("counterexample")]
                res = [prop, "CAUGHT", (lines or [""])[0][:110]]
                break
            res += ["%s MISSED rc=%d" % (prop, c.returncode)]
        print(i, *res, "%.0fs" % (time.time() - t0), flush=True)
    finally:
        seed.undo()
