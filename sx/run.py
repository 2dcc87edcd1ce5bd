"""Check driver.  usage: python3-vt -m sx.run PROPERTY [--tier quick|thorough] [--case NAME] [--jobs N]

Explores every feasible path of the property's harness cases with worker processes sharing a work
list of branch prefixes, replays counterexamples against the real code, validates a sample of
passing paths the same way, and writes the evidence file."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
PY = "/opt/venv/bin/python"

DEF_BUDGET = {"quick": 100, "thorough": 1500}


# ------------------------------------------------------------------ worker
class Worker(object):
    def __init__(self, prop, tier, hungry):
        import warnings
        warnings.simplefilter("ignore")
        sys.setrecursionlimit(5000)
        from . import core
        core.start()
        from . import hooks, instr
        from . import ctx as ctxmod
        self.core, self.instr = core, instr
        self.funcs = set()
        self._monitor()
        self.vfs = instr.boot()
        self.mod = instr._import("harness." + prop, None, None, ("x",))
        self.ctx = ctxmod.SymCtx(tier, self.vfs)
        self.hungry = hungry
        self.path_limit = getattr(self.mod, "PATH_LIMIT", 60)

    def _monitor(self):
        mon = sys.monitoring
        tool = mon.COVERAGE_ID
        mon.use_tool_id(tool, "sx")
        pre = os.path.join(REPO, "multibag") + "/"

        def start(code, off):
            if code.co_filename.startswith(pre) and not code.co_name.startswith("<"):
                self.funcs.add("%s:%s" % (code.co_filename[len(REPO) + 1:], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tool, mon.events.PY_START, start)
        mon.set_events(tool, mon.events.PY_START)

    def explore(self, case, params, items, tslice):
        core, ENG, ctx = self.core, self.core.ENG, self.ctx
        res = {"paths": 0, "done": 0, "infeasible": 0, "inconclusive": [], "viol": [], "asserts": 0,
               "decisions": 0, "forks": 0, "covers": {}, "samples": []}
        q0, s0, d0 = ENG.queries, ENG.solver_s, ENG.domforks
        t0 = time.monotonic()
        stack = list(items)
        while stack:
            prefix, vals = stack.pop()
            ENG.reset(prefix, vals)
            ENG.deadline = time.monotonic() + self.path_limit
            signal.setitimer(signal.ITIMER_REAL, self.path_limit + 3, 1)
            res["paths"] += 1
            try:
                ctx.begin()
                self.mod.run(ctx, case, **params)
                self.finish(res, prefix)
            except core.PathDone:
                self.finish(res, prefix)
            except core.Infeasible:
                res["infeasible"] += 1
            except core.Violation as v:
                res["viol"].append({"msg": v.msg, "values": v.inputs, "kind": "check"})
            except core.Inconclusive as ex:
                self.inconclusive(res, "%s" % ex)
            except core.EngineSignal as ex:
                self.inconclusive(res, "%s %s" % (type(ex).__name__, ex))
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as ex:
                signal.setitimer(signal.ITIMER_REAL, 0)
                tb = traceback.extract_tb(ex.__traceback__)
                where = [f for f in tb if not f.filename.startswith(HERE + "/sx/")]
                try:
                    text = str(ex) if not self.core.has_sym(getattr(ex, "args", ())) else "..."
                except BaseException:
                    text = "?"
                msg = "unexpected %s: %s" % (type(ex).__name__, text)
                try:
                    vals_ = ctx.model_inputs(ENG.cur_model())
                    res["viol"].append({"msg": msg, "values": vals_, "kind": "exception",
                                        "type": type(ex).__name__,
                                        "where": ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in where[-6:]],
                                        "full": ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-8:]]})
                except core.Infeasible:
                    res["infeasible"] += 1
                except core.EngineSignal as ex2:
                    self.inconclusive(res, "%s after %s" % (ex2, msg))
            signal.setitimer(signal.ITIMER_REAL, 0)
            res["asserts"] += ENG.asserts
            res["decisions"] += len(ENG.decisions) - len(prefix)
            res["forks"] += ENG.forks
            stack.extend(ENG.alts)
            if len(res["viol"]) >= 3:
                break
            el = time.monotonic() - t0
            if el > tslice or (self.hungry.value and (el > 0.3 or len(stack) > 4)):
                break
        res["queries"] = ENG.queries - q0
        res["solver_s"] = ENG.solver_s - s0
        res["domforks"] = ENG.domforks - d0
        res["time"] = time.monotonic() - t0
        res["unknowns"] = ENG.unknowns
        res["concretised"] = ENG.concretised
        ENG.concretised = {}
        ENG.unknowns = 0
        return res, stack

    def inconclusive(self, res, msg):
        r = {"msg": msg}
        try:
            r["values"] = self.ctx.model_inputs(self.core.ENG.cur_model())
        except self.core.EngineSignal:
            r["values"] = None
        res["inconclusive"].append(r)

    def finish(self, res, prefix):
        ENG = self.core.ENG
        res["done"] += 1
        for k, v in ENG.covers.items():
            res["covers"][k] = res["covers"].get(k, 0) + v
        n = res["done"]
        if n <= 2 or n % 97 == 0:
            try:
                m = ENG.cur_model()
            except self.core.EngineSignal:
                return
            if len(res["samples"]) < 4:
                res["samples"].append({"values": self.ctx.model_inputs(m), "covers": sorted(ENG.covers)})


def too_long(sig, frame):
    from . import core
    raise core.Inconclusive("the path does not end")


def worker_main(prop, tier, conn, hungry):
    signal.signal(signal.SIGALRM, too_long)
    resource.setrlimit(resource.RLIMIT_AS, (6 * 2 ** 30, 6 * 2 ** 30))
    try:
        w = Worker(prop, tier, hungry)
    except BaseException as ex:
        conn.send(("bootfail", "".join(traceback.format_exception(ex))[-3000:]))
        return
    conn.send(("ready", None))
    while True:
        msg = conn.recv()
        if msg is None:
            conn.send(("funcs", sorted(w.funcs)))
            return
        ci, case, params, items, tslice = msg
        try:
            res, rest = w.explore(case, params, items, tslice)
            conn.send(("res", (ci, res, rest)))
        except BaseException as ex:
            conn.send(("crash", (ci, "".join(traceback.format_exception(ex))[-2000:])))
            return


# ------------------------------------------------------------------ concrete replay
def _demote():
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        pass


def replay(reqs, timeout=300):
    """results of running the requests against the real code, as an unprivileged user in scratch"""
    if not reqs:
        return []
    tmp = tempfile.mkdtemp(prefix="sxreplay")
    try:
        os.chmod(tmp, 0o755)
        f = os.path.join(tmp, "req.json")
        with open(f, "w") as fd:
            json.dump(reqs, fd)
        os.chmod(f, 0o644)
        work = os.path.join(tmp, "t")
        os.mkdir(work)
        try:
            os.chown(work, 65534, 65534)
        except OSError:
            pass
        env = {"PATH": "/usr/bin:/bin", "HOME": "/root", "LANG": "C.UTF-8", "TMPDIR": work,
               "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "SX_REPO": REPO,
               "PYTHONWARNINGS": "ignore"}
        try:
            p = subprocess.run([PY, "-m", "sx.replay", f], cwd=HERE, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, preexec_fn=_demote)
            got, err = p.stdout, p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as ex:
            got, err = ex.stdout or b"", "timeout"
        out = []
        for line in got.decode("utf-8", "replace").splitlines():
            try:
                out.append(json.loads(line))
            except ValueError:
                out.append({"status": "error", "msg": line[:200]})
        while len(out) < len(reqs):
            out.append({"status": "error", "msg": "replay died: " + err[-500:]})
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ master
def spread(items, n):
    """up to n of the paths, taken in turn from each case and kind of failure"""
    groups = {}
    for m in items:
        groups.setdefault((m["case"], m["msg"][:60]), []).append(m)
    out, k = [], 0
    while len(out) < n and k < max([len(g) for g in groups.values()] or [0]):
        out += [g[k] for g in groups.values() if k < len(g)]
        k += 1
    return out[:n]


def load_meta(prop):
    """the harness module, loaded natively for its tables (CASES, BOUNDS, ...)"""
    sys.path.insert(0, HERE)
    return importlib.import_module("harness." + prop)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        with open(p) as fd:
            for line in fd:
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()
    meta = load_meta(a.prop)
    prop = a.prop
    cases = [c for c in meta.cases(a.tier) if not a.case or a.case in c[0]]
    budget = a.budget or getattr(meta, "BUDGET", DEF_BUDGET).get(a.tier, DEF_BUDGET[a.tier])
    deadline = t0 + budget
    rng = random.Random(seed)

    # known findings: shown once, each by running its recorded input against the real code
    for k in known_findings(prop):
        r = replay([{"harness": prop, "case": k["case"], "params": k.get("params", {}), "values": k["values"],
                     "tier": a.tier}])[0]
        if r["status"] in ("violation", "exception"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)

    hungry = mp.Value("b", 0)
    procs, conns = [], []
    for i in range(a.jobs):
        pc, cc = mp.Pipe()
        p = mp.Process(target=worker_main, args=(prop, a.tier, cc, hungry), daemon=True)
        p.start()
        cc.close()
        procs.append(p)
        conns.append(pc)

    queues = [[(b"", ())] for _ in cases]
    spent = [0.0] * len(cases)
    stats = [dict(paths=0, done=0, infeasible=0, asserts=0, decisions=0, forks=0, queries=0, solver_s=0.0,
                  domforks=0, covers={}, samples=[], time=0.0) for _ in cases]
    inconc, viols, funcs, concretised, spurious = [], [], set(), {}, []
    unknowns = 0
    busy = {}
    idle = []
    boot_error = None
    from multiprocessing.connection import wait
    live = dict((c, i) for i, c in enumerate(conns))
    stop = False
    confirmed = []
    seen_msgs = set()
    truncated = False

    def dispatch():
        nonlocal idle
        rest = []
        for c in idle:
            cand = [i for i in range(len(cases)) if queues[i]]
            if not cand or stop:
                rest.append(c)
                continue
            ci = min(cand, key=lambda i: spent[i])
            q = queues[ci]
            n = max(1, len(q) // (2 * a.jobs))
            if len(q) > n:
                # alternate between the newest work (depth first) and random older work
                if rng.random() < 0.5:
                    rng.shuffle(q)
                items = q[-n:]
                del q[-n:]
            else:
                items = q[:]
                del q[:]
            name, params = cases[ci]
            remaining = max(0.2, deadline - time.monotonic())
            c.send((ci, name, params, items, min(2.0, remaining)))
            busy[c] = (ci, time.monotonic())
            spent[ci] += 0.5
        idle = rest
        hungry.value = 1 if idle else 0

    def confirm(ci, v):
        """replay one counterexample; True if the real code shows it"""
        name, params = cases[ci]
        r = replay([{"harness": prop, "case": name, "params": params, "values": v["values"], "tier": a.tier}], 120)[0]
        v["replay"] = r
        return r["status"] in ("violation", "exception")

    while live:
        now = time.monotonic()
        if now > deadline and not stop:
            stop = True
            truncated = truncated or any(queues) or bool(busy)
        if (stop or not any(queues)) and not busy:
            break
        for c in wait(list(live), timeout=1.0):
            try:
                kind, data = c.recv()
            except EOFError:
                live.pop(c, None)
                if c in busy:
                    ci, _ = busy.pop(c)
                    inconc.append({"case": cases[ci][0], "msg": "worker died"})
                continue
            if kind == "bootfail":
                boot_error = data
                live.pop(c, None)
            elif kind == "ready":
                idle.append(c)
            elif kind == "crash":
                ci, tb = data
                busy.pop(c, None)
                live.pop(c, None)
                inconc.append({"case": cases[ci][0], "msg": "worker crash: " + tb})
            elif kind == "res":
                ci, res, rest = data
                busy.pop(c, None)
                idle.append(c)
                queues[ci].extend(rest)
                spent[ci] += res["time"] - 0.5
                st = stats[ci]
                for k in ("paths", "done", "infeasible", "asserts", "decisions", "forks", "queries", "solver_s",
                          "domforks", "time"):
                    st[k] += res[k]
                for k, n in res["covers"].items():
                    st["covers"][k] = st["covers"].get(k, 0) + n
                st["samples"].extend(res["samples"])
                unknowns += res["unknowns"]
                for k, n in res["concretised"].items():
                    concretised[k] = concretised.get(k, 0) + n
                for m in res["inconclusive"]:
                    m["case"] = cases[ci][0]
                    m["ci"] = ci
                    inconc.append(m)
                for v in res["viol"]:
                    key = (ci, v["msg"])
                    if len([1 for x in spurious if x["key"] == key]) >= 5 or key in seen_msgs:
                        continue
                    v["case"], v["ci"], v["key"] = cases[ci][0], ci, key
                    if confirm(ci, v):
                        confirmed.append(v)
                        seen_msgs.add(key)
                        if a.v and len(confirmed) < 4:
                            print("CONFIRMED", cases[ci][0], v["msg"], v["values"], v["replay"], v.get("where"))
                        if not a.keep_going:
                            stop = True
                            queues = [[] for _ in cases]
                    else:
                        spurious.append(v)
                        if a.v and len([1 for x in spurious if x["key"] == key]) < 2:
                            print("SPURIOUS", cases[ci][0], v["msg"], v["values"], v["replay"],
                                  v.get("full"))
        dispatch()
        if not live:
            break
    explored_all = not truncated and not any(queues) and not confirmed

    for c in list(live):
        try:
            if c in busy:
                continue
            c.send(None)
            k, d = c.recv()
            while k not in ("funcs", "bootfail"):
                k, d = c.recv()
            if k == "funcs":
                funcs.update(d)
        except (EOFError, OSError, BrokenPipeError):
            pass
    for p in procs:
        p.terminate()

    # a change may make the code unimportable in the engine: say so by the real code's behaviour only
    validated = 0
    bad_samples = []
    if not confirmed:
        reqs, idx = [], []
        per = max(2, 48 // max(1, len(cases)))
        for ci, st in enumerate(stats):
            s = st["samples"]
            rng.shuffle(s)
            for x in s[:per]:
                reqs.append({"harness": prop, "case": cases[ci][0], "params": cases[ci][1], "values": x["values"],
                             "tier": a.tier})
                idx.append((ci, x))
        hung = 0
        for m in spread(inconc, 300):
            if m.get("values") is not None and not (hung >= 2 and m["msg"] == "the path does not end"):
                hung += m["msg"] == "the path does not end"
                reqs.append({"harness": prop, "case": m["case"], "params": cases[m["ci"]][1], "values": m["values"],
                             "tier": a.tier})
                idx.append((m["ci"], {"values": m["values"], "covers": None}))
        for (ci, x), r in zip(idx, replay(reqs)):
            if r["status"] == "ok":
                validated += 1
                if x["covers"] is not None and sorted(r["covers"]) != x["covers"]:
                    bad_samples.append({"case": cases[ci][0], "values": x["values"],
                                        "engine": x["covers"], "real": sorted(r["covers"])})
            elif r["status"] in ("violation", "exception"):
                confirmed.append({"msg": r["msg"], "values": x["values"], "case": cases[ci][0], "ci": ci,
                                  "replay": r, "kind": "validation", "where": r.get("where")})
                if not a.keep_going:
                    break
            else:
                bad_samples.append({"case": cases[ci][0], "values": x["values"], "real": r})

    covers = {}
    for (name, params), st in zip(cases, stats):
        for k, n in st["covers"].items():
            covers[k] = covers.get(k, 0) + n
    want = getattr(meta, "COVERS", [])
    missing = [w for w in want if not covers.get(w)] if not a.case else []

    tot = lambda k: sum(st[k] for st in stats)
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": validated,
            "exhaustive": bool(explored_all and not inconc and not spurious),
            "samples": [{"case": cases[ci][0], "values": st["samples"][0]["values"]}
                        for ci, st in enumerate(stats) if st["samples"]][:4] or ["none"],
            "paths_completed": tot("done"), "paths_pruned_by_assumptions": tot("infeasible"),
            "paths_inconclusive": len(inconc), "counterexamples_not_reproduced": len(spurious),
            "assertions_decided": tot("asserts"), "branches_forked": tot("forks"),
            "branches_forked_on_character_domains": tot("domforks"),
            "solver_queries": tot("queries"), "solver_s": round(tot("solver_s"), 2), "solver_unknown": unknowns,
            "solver": "z3 (python bindings)", "engine_cpu_s": round(tot("time"), 1),
            "cases": [{"case": c[0], "params": c[1], "paths": st["paths"], "asserts": st["asserts"],
                       "queries": st["queries"], "unexplored_branches": len(q)}
                      for c, st, q in zip(cases, stats, queues)],
            "covers": covers, "covers_missing": missing,
            "functions_encoded": sorted(funcs),
            "bounds": getattr(meta, "BOUNDS", {}).get(a.tier, getattr(meta, "BOUNDS", {})),
            "outside_bounds": getattr(meta, "OUTSIDE", ""),
            "values_made_concrete_by_forking": concretised,
            "engine_vs_real_differences": bad_samples[:5],
            "inconclusive": [{"case": m["case"], "msg": m["msg"][-400:]} for m in inconc[:8]],
            "not_reproduced": [{"case": m["case"], "msg": m["msg"][:300], "values": m["values"]}
                               for m in spurious[:4]],
        },
        "assumptions": list(getattr(meta, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.case:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fd:
            json.dump(ev, fd, indent=1, sort_keys=True, default=str)

    print("%s %s: %d paths (%d completed), %d branches, %d assertions, %d queries, solver %.1fs, wall %.1fs, "
          "exhaustive=%s, validated=%d, inconclusive=%d, unreproduced=%d"
          % (prop, a.tier, tot("paths"), tot("done"), tot("decisions"), tot("asserts"), tot("queries"),
             tot("solver_s"), wall, ev["coverage"]["exhaustive"], validated, len(inconc), len(spurious)))
    if a.v:
        for c, st, q in zip(cases, stats, queues):
            print("  ", c[0], c[1], "paths", st["paths"], "done", st["done"], "cpu %.1f" % st["time"], "queries", st["queries"],
                  "solver %.1f" % st["solver_s"], "left", len(q), st["covers"])
        for m in inconc[:8]:
            print("  inconclusive:", m["case"], m["msg"][-1500:])
        for m in bad_samples[:8]:
            print("  differs:", m)
        print("  concretised", str(concretised)[:400])
    if boot_error:
        print("engine could not load the code:\n" + boot_error)
    if confirmed:
        v = confirmed[0]
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % prop)
        with open(rp, "w") as fd:
            json.dump([{"harness": prop, "case": v["case"], "params": cases[v["ci"]][1], "values": v["values"],
                        "tier": a.tier, "msg": v["msg"], "real": v["replay"]}], fd, indent=1)
        for v in confirmed[:30]:
            print("counterexample: case=%s %s" % (v["case"], v["msg"]))
            print("  inputs: %s" % json.dumps(v["values"]))
            print("  real code: %s %s" % (v["replay"].get("msg"), v["replay"].get("where") or ""))
        print("replay with: cd %s && %s -m sx.replay %s" % (HERE, PY, rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if missing:
        print("WARNING: never reached: %s" % missing)
    if boot_error:
        return fallback(prop, meta, a, cases)
    return 0


def fallback(prop, meta, a, cases):
    """the instrumented code does not even load: nothing was explored.  The real code decides whether
    that is the code's fault (then every case fails there too) or the engine's (no answer)."""
    reqs = [{"harness": prop, "case": c[0], "params": c[1], "values": {}, "tier": a.tier} for c in cases]
    for c, r in zip(cases, replay(reqs)):
        if r["status"] in ("violation", "exception"):
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s.json" % prop)
            with open(rp, "w") as fd:
                json.dump([{"harness": prop, "case": c[0], "params": c[1], "values": {}, "real": r}], fd)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
    return 2


COMMON_ASSUMPTIONS = [
    "the instrumented execution of the sources agrees with CPython (checked by running the repository's own test "
    "modules instrumented, and by replaying a sample of the explored paths on the real code on every run)",
    "file system model: no symbolic links, no concurrent writers, directory listings in creation order",
    "hash functions are collision free; logging has no effect; the clock increases",
]


if __name__ == "__main__":
    sys.exit(main())
