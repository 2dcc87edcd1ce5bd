"""add "fixed" entries: tools/found.py 'commit subject prefix' PROP 'what failed' ..."""
import subprocess, json, sys
have = open('/verif/known_findings.jsonl').read()
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()[::-1]
a = sys.argv[1:]
with open('/verif/known_findings.jsonl', 'a') as fd:
    while a:
        k, p, w = a[:3]; a = a[3:]
        m = [l.split(" ", 1)[0] for l in log if k in l]
        assert len(m) == 1 and m[0] not in have, (k, m)
        fd.write(json.dumps({"status": "fixed", "property": p, "commit": m[0], "what": "fixed: property=%s %s %s" % (p, m[0], w)}) + "\n")
