"""Self-test of the engine: ways to write things that the sources do not use now but might.  Each case
computes something in an unusual way from symbolic input and compares it with the plain way."""
COVERS = []
BOUNDS = {"quick": "", "thorough": ""}
OUTSIDE = ""
BUDGET = {"quick": 200, "thorough": 200}
from harness.T00cases import CASES


def cases(tier):
    return [(n, {}) for n in sorted(CASES)]


def run(ctx, case, **p):
    CASES[case](ctx)
