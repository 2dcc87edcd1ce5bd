"""Version comparison is a total order, consistent across operators and ways of building versions."""

COVERS = ["lt", "eq", "gt", "prefix", "mixed", "letters"]
BOUNDS = {"quick": "pairs of strings of up to 4 characters over 0 1 9 . x; triples of up to 2; up to 3 numeric fields 0..99",
          "thorough": "pairs of up to 5 characters, triples of up to 3"}
OUTSIDE = "longer strings; fields with signs, blanks or non-ASCII digits"
BUDGET = {"quick": 100, "thorough": 1200}


def cases(tier):
    t = tier == "thorough"
    return [("pair", {"n": 5 if t else 4}), ("triple", {"n": 3 if t else 2}), ("fields", {"form": "text"}), ("fields", {"form": "mixed"}),
            ("fields", {"form": "raw"}), ("text", {"n": 4})]


def laws(ctx, A, B):
    lt, eq, gt = A < B, A == B, A > B
    if lt:
        ctx.cover("lt")
    if eq:
        ctx.cover("eq")
    if gt:
        ctx.cover("gt")
    ctx.check((1 if lt else 0) + (1 if eq else 0) + (1 if gt else 0) == 1, "exactly one of <, ==, > holds")
    ctx.check((B > A) == lt, "a<b iff b>a")
    ctx.check((B < A) == gt, "a>b iff b<a")
    ctx.check((B == A) == eq, "== is symmetric")
    ctx.check((A <= B) == (lt or eq), "<= is < or ==")
    ctx.check((A >= B) == (gt or eq), ">= is > or ==")
    ctx.check((A != B) == (not eq), "!= is not ==")
    return lt, eq


def run(ctx, case, **p):
    from multibag.constants import Version
    if case == "pair":
        a = ctx.text("a", 1, p["n"], "019.x")
        b = ctx.text("b", 1, p["n"], "019.x")
        lt, eq = laws(ctx, Version(a), Version(b))
        ctx.check(str(Version(a)) == a, "the text of a version is kept")
        if a == b:
            ctx.check(eq, "equal texts are equal versions")
        # independent definition: fields between dots; one that is no number comes before the numbers
        fa, fb = a.split("."), b.split(".")
        exp, same = len(fa) < len(fb), len(fa) == len(fb)
        for x, y in zip(fa, fb):
            x = int(x) if x.isdigit() else -1
            y = int(y) if y.isdigit() else -1
            if x != y:
                exp, same = x < y, False
                break
        ctx.check(eq == same, "equal exactly when all fields are equal")
        ctx.check(lt == exp, "versions order by their fields, those that are no numbers first")
    elif case == "triple":
        vs = [Version(ctx.text(k, 1, p["n"], "01.x")) for k in "abc"]
        A, B, C = vs
        if A < B and B < C:
            ctx.check(A < C, "< is transitive")
        if A <= B and B <= C:
            ctx.check(A <= C, "<= is transitive")
        if A == B and B == C:
            ctx.check(A == C, "== is transitive")
        if A == B and B < C:
            ctx.check(A < C, "< respects equality")
    elif case == "fields":
        fa = [ctx.int("a%d" % i, 0, 99) for i in range(ctx.choice("na", [1, 2, 3]))]
        fb = [ctx.int("b%d" % i, 0, 99) for i in range(ctx.choice("nb", [1, 2, 3]))]
        a = ".".join([str(x) for x in fa])
        b = ".".join([str(x) for x in fb])
        A = Version(a)
        if p["form"] == "text":
            B = Version(b)
        elif p["form"] == "mixed":
            B = Version(tuple(fb))
            ctx.cover("mixed")
        else:
            B = Version(b)
            ctx.check((A < b) == (A < B), "comparing with plain text is comparing with its version")
            ctx.check((A == b) == (A == B), "equality with plain text")
            ctx.check((A > b) == (A > B), "comparing with plain text")
            ctx.check((A <= tuple(fb)) == (A <= B), "comparing with a plain tuple")
            ctx.check((A >= b) == (A >= B), "comparing with plain text")
            ctx.check((A != b) == (A != B), "inequality with plain text")
        lt, eq = laws(ctx, A, B)
        # independent definition: first differing field decides, a proper prefix comes first
        exp = None
        for x, y in zip(fa, fb):
            if x != y:
                exp = x < y
                break
        if exp is None:
            exp = len(fa) < len(fb)
            if len(fa) != len(fb):
                ctx.cover("prefix")
            ctx.check(eq == (len(fa) == len(fb)), "equal exactly when all fields are equal")
        else:
            ctx.check(not eq, "versions with a differing field differ")
        ctx.check(lt == exp, "versions order by their numeric fields")
    else:
        # a non-numeric field orders before any number
        a = ctx.text("a", 1, p["n"] - 2, "xy")
        n = ctx.int("n", 0, 99)
        ctx.cover("letters")
        ctx.check(Version("1." + a) < Version("1." + str(n)), "a non-numeric field orders before numbers")
        ctx.check(Version("1." + a) > Version("1"), "a longer version orders after its prefix")
