"""Create and confirm planted bugs.

tools/seed.py make FILE   FILE defines BUGS: list of dicts id, property, needs, breaks, edits [(file, old, new)], demo (python text)
tools/seed.py check ID..  apply to a scratch copy of /repo, run the tests, the demo and the property's check; undo
"""
import atexit, json, os, subprocess, sys, shutil, time
V = "/verif"
S = V + "/seeded"
R = "/tmp/seedrepo.%d" % os.getpid()
PRE = open(V + "/tools/demo_prelude.py").read()
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONWARNINGS=ignore
cd "$t" && timeout 250 /opt/venv/bin/python "$d/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh("git -C %s checkout -- ." % R)


def demo(i):
    t = "/tmp/seeddemo-" + i
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(S + "/" + i, t)
    r = sh("bash %s/demo.sh" % t, cwd=R)
    shutil.rmtree(t)
    return r


def tests():
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(next(base[k] for k in ("passed", "stable", *[k for k in base if isinstance(base[k], list)]) if k in base))
    for n in range(3):      # two tests fail at random now and then
        r = sh("""export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LANG=C.UTF-8 PYTHONPATH=%s
W=$(mktemp -d); mkdir $W/tmp; TMPDIR=$W/tmp setpriv --bounding-set=-dac_override,-dac_read_search --inh-caps=-dac_override,-dac_read_search /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=$W/junit.xml tests >$W/log 2>&1
python3 /opt/vp/results.py %s.json junit:$W/junit.xml; tail -5 $W/log; rm -rf $W""" % (R, R), cwd=R)
        got = set(json.load(open(R + ".json"))["passed"])
        os.remove(R + ".json")
        miss = sorted(want - got)
        if not miss:
            break
    return not miss, "%s\n%s" % (miss[:5], r.stdout[-600:])


def make(b):
    d = S + "/" + b["id"]
    assert not os.path.exists(d), d
    assert not sh("git -C %s status --short" % R).stdout, "repo dirty"
    try:
        for f, old, new in b["edits"]:
            p = R + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % R).stdout
        # which removed lines are ours?
        undo()
        mine = []
        for f, old, new in b["edits"]:
            bl = sh("git -C %s blame -s %s" % (R, f)).stdout.splitlines()
            for ln in old.splitlines():
                if ln.strip() and ln not in new.splitlines():
                    for x in bl:
                        if x.split(") ", 1)[-1] == ln and not (x.startswith("^") or x.startswith("afb3cad")):
                            mine.append(ln)
        if mine:
            print(b["id"], "WARNING: touches lines of fix commits:", mine)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(PRE + b["demo"])
        open(d + "/demo.sh", "w").write(SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    finally:
        undo()


def check(i, run=True):
    out = []
    d = S + "/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    r = demo(i)
    ok = r.returncode == 0
    if not ok:
        print(i, "DEMO FAILS ON CLEAN TREE", r.stdout[-700:])
        return
    try:
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        if r.returncode:
            print(i, "patch does not apply", r.stdout)
            return
        t, log = tests()
        r = demo(i)
        if not t:
            print(i, "TESTS FAIL", log)
        if r.returncode == 0:
            print(i, "DEMO PASSES WITH THE BUG")
        elif not run:
            print(i, "tests ok" if t else "tests fail", "demo:", r.stdout.strip()[-150:])
        if run and t and r.returncode:
            t0 = time.time()
            c = sh("SX_REPO=%s timeout 900 python3-vt -W ignore -m sx.run %s --tier quick" % (R, prop), cwd=V)
            caught = c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout
            lines = [x for x in c.stdout.splitlines() if x.startswith("counterexample")]
            print(i, prop, "CAUGHT" if caught else "MISSED rc=%d" % c.returncode, "%.0fs" % (time.time() - t0), (lines or c.stdout.splitlines()[-2:])[0][:150])
    finally:
        undo()


shutil.rmtree(R, ignore_errors=True)
sh("cp -a /repo %s; git -C %s checkout -- ." % (R, R))
atexit.register(lambda: shutil.rmtree(R, ignore_errors=True))
if sys.argv[1] == "make":
    ns = {}
    exec(open(sys.argv[2]).read(), ns)
    for b in ns["BUGS"]:
        if os.path.exists(S + "/" + b["id"]):
            continue
        make(b)
        check(b["id"], run=len(sys.argv) <= 3)
elif sys.argv[1] == "check":
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        check(i)
        sys.stdout.flush()
elif sys.argv[1] == "demos":
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        check(i, run=False)
