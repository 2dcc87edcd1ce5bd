"""Validation results are aggregated without losing or inventing issues."""

COVERS = ["failed error", "failed warning", "failed recommendation", "all passed", "strict raised", "passed on", "several comments", "unknown kind"]
BOUNDS = {"quick": "any sequence of up to 3 outcomes (kind, passed or failed, number and form of comments), any two kind filters, any set of wanted kinds; passed on between up to 3 validators; labels and texts of up to 2 characters",
          "thorough": "sequences of up to 4 outcomes; texts of up to 4 characters"}
OUTSIDE = "the wording of messages; longer sequences"
BUDGET = {"quick": 120, "thorough": 1500}


def cases(tier):
    t = tier == "thorough"
    out = []
    for n in range(5 if t else 4):
        for want in range(8):
            out.append(("results", {"n": n, "want": want}))
    for want in range(8):
        out.append(("strict", {"want": want, "k": 3 if t else 2}))
    out.append(("issue", {"k": 4 if t else 2}))
    return out


KINDS = [1, 2, 4]


def record(res, kind, how, issue, passed, comm):
    if how == "method":
        fn = {1: res._err, 2: res._warn, 4: res._rec}[kind]
        fn(issue, passed, comm)
    else:
        res._add_issue(issue, kind, passed, comm)


def ids(issues):
    return [i.label for i in issues]


def verify(ctx, res, exp, mask, want):
    """exp: list of (label, kind, passed, comments) in the order of recording"""
    sel = [e for k in KINDS for e in exp if e[1] == k and (k & mask)]
    ctx.check(sorted(ids(res.applied(mask))) == sorted([e[0] for e in sel]), "the outcomes are those recorded, of the kinds asked for")
    ctx.check(sorted(ids(res.failed(mask))) == sorted([e[0] for e in sel if not e[2]]), "failed are exactly the failed ones")
    ctx.check(sorted(ids(res.passed(mask))) == sorted([e[0] for e in sel if e[2]]), "passed are exactly the passed ones")
    ctx.check(res.count_applied(mask) == len(sel), "the number of outcomes")
    ctx.check(res.count_failed(mask) == len([e for e in sel if not e[2]]), "the number of failures")
    ctx.check(res.count_passed(mask) == len([e for e in sel if e[2]]), "the number of passes")
    ctx.check(res.ok() == (len([e for e in exp if not e[2] and (e[1] & want)]) == 0), "acceptable precisely if no wanted outcome failed")
    for e in exp:
        i = [x for x in res.applied() if x.label == e[0]]
        ctx.check(len(i) == 1, "an outcome is recorded once")
        i = i[0]
        ctx.check(i.type == e[1], "the kind is the one recorded")
        ctx.check(i.passed() == e[2] and i.failed() == (not e[2]), "the outcome is the one recorded")
        ctx.check(list(i.comments) == e[3], "the comments are those recorded")
        ctx.check(i.specification == "spec " + e[0], "the specification is the one recorded")
    # within a kind the order is that of recording
    for k in KINDS:
        ctx.check(ids(res.applied(k)) == [e[0] for e in exp if e[1] == k], "outcomes of a kind are in the order of recording")


def run(ctx, case, **p):
    from multibag.validate.base import ValidationResults, ValidationIssue, Validator, MultibagValidationError
    if case == "results":
        res = ValidationResults("t", p["want"])
        exp = []
        shared = p["n"] < 3 and ctx.flag("shared")
        tmpl = res._issue("x", "y")
        for i in range(p["n"]):
            kind = ctx.choice("kind%d" % i, KINDS)
            ok = ctx.flag("ok%d" % i)
            if i == 0 and p["n"] < 3 and not shared:
                comm = ctx.choice("comm", [None, "one", ["one", "two"], ("one", "two"), ["one", "two", "one"]])
            else:
                comm = None
            if comm is None or comm == "one":
                cl = [] if comm is None else ["one"]
            else:
                cl = list(comm)
                ctx.cover("several comments")
            lab = "L%d" % i
            if shared:
                # the same issue object recorded again after it was changed
                issue = tmpl
                issue.label = lab
                issue.specification = "spec " + lab
            else:
                issue = res._issue(lab, "spec " + lab)
            passed = ok if i % 2 == 0 else (["yes"] if ok else "")
            record(res, kind, "method" if i != 1 else "add", issue, passed, comm)
            exp.append((lab, kind, ok, cl))
            if not ok:
                ctx.cover({1: "failed error", 2: "failed warning", 4: "failed recommendation"}[kind])
        if p["n"] and not [e for e in exp if not e[2]]:
            ctx.cover("all passed")
        for mask in range(8):
            verify(ctx, res, exp, mask, p["want"])
        # asking does not change the answer
        verify(ctx, res, exp, 3, p["want"])
        got = res.applied()
        got.append(None)
        got = res.applied(1)
        got.append(None)
        got = res.failed(1)
        got.append(None)
        verify(ctx, res, exp, 7, p["want"])
    elif case == "strict":
        want = p["want"]
        outcomes = []
        for i in range(p["k"]):
            outcomes.append((ctx.choice("kind%d" % i, KINDS), ctx.flag("ok%d" % i)))

        class V(Validator):
            def __init__(self, outs, tag):
                Validator.__init__(self, "t")
                self.outs = outs
                self.tag = tag

            def validate(self, want=3, results=None):
                out = Validator.validate(self, want, results)
                for i, (k, ok) in enumerate(self.outs):
                    record(out, k, "method", out._issue(self.tag + str(i), "spec " + self.tag + str(i)), ok, None)
                return out

        exp = [("a%d" % i, k, ok, []) for i, (k, ok) in enumerate(outcomes)]
        bad = [e for e in exp if not e[2] and (e[1] & want)]
        v = V(outcomes, "a")
        ctx.check(v.is_valid(want) == (not bad), "valid precisely if no wanted outcome failed")
        try:
            v.ensure_valid(want)
            ctx.check(not bad, "the strict form raises if a wanted outcome failed")
        except MultibagValidationError as ex:
            ctx.cover("strict raised")
            ctx.check(bool(bad), "the strict form raises only if a wanted outcome failed")
            verify(ctx, ex.results, exp, 7, want)
            txt = str(ex)
            if len([e for e in exp if not e[2]]) <= 3:
                for e in bad:
                    ctx.check("spec " + e[0] in txt, "the error names what failed")
        if want == 3:
            ctx.check(v.is_valid() == (not bad), "errors and warnings are what matters by default")
        # one validator after the other
        first = ctx.choice("first", [[], [(1, False)], [(2, True), (4, False)]])
        ctx.cover("passed on")
        res = V(first, "b").validate(want)
        r2 = v.validate(7, res)
        ctx.check(r2 is res, "the results given are the ones returned")
        verify(ctx, res, [("b%d" % i, k, ok, []) for i, (k, ok) in enumerate(first)] + exp, 7, want)
    else:
        lab = ctx.text("lab", 0, p["k"], "a-")
        spec = ctx.text("spec", 0, p["k"] - 1, "x:")
        kind = ctx.choice("kind", [0, 1, 2, 3, 4, 7, "error"])
        ok = ctx.flag("ok")
        com = ctx.choice("com", [None, "c", ["c"], ("c", "d"), [], ["c", "", "c"]])
        ver = ctx.choice("ver", ["0.4", "0.2"])
        try:
            i = ValidationIssue(lab, kind, spec, ok, com, ver)
            ctx.check(kind in (1, 2, 4), "only the three kinds are accepted")
        except ValueError:
            ctx.cover("unknown kind")
            ctx.check(kind not in (1, 2, 4), "the three kinds are accepted")
            return
        cl = [com] if com == "c" else list(com or [])
        n = ctx.choice("added", [0, 1])
        if n:
            i.add_comment("e")
            cl = cl + ["e"]
        t = i.to_tuple()
        j = ValidationIssue.from_tuple(t)
        for x in (i, j):
            ctx.check(x.label == lab, "the label is kept")
            ctx.check(x.type == kind, "the kind is kept")
            ctx.check(x.specification == spec, "the specification is kept")
            ctx.check(x.passed() == ok, "the outcome is kept")
            ctx.check(list(x.comments) == cl, "the comments are kept")
            ctx.check(x.profile_version == ver, "the profile version is kept")
        ctx.check(i.summary == j.summary and i.description == j.description and str(i) == str(j), "the descriptions are the same")
        j.add_comment("z")
        ctx.check(list(i.comments) == cl, "changing the copy does not change the issue")
        o = i.to_json_obj()
        ctx.check(o["label"] == lab and o["spec"] == spec and o["profile_version"] == ver and list(o["comments"]) == cl, "the JSON form has the issue's data")
        ctx.check(o["type"] == {1: "error", 2: "warning", 4: "recommendation"}[kind], "the JSON form has the issue's kind")
        ctx.check(i.summary.startswith("PASSED" if ok else {1: "ERROR", 2: "WARNING", 4: "RECOMMENDATION"}[kind]), "the summary tells the outcome")
