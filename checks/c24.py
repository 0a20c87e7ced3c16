"""C24: interaction lookup is symmetric and agrees with the table."""
import math

from hypothesis import strategies as st

from lib import fitted, oracle
from lib.gen import NAMES, SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("fitted methods of every kind with names that are prefixes, concatenations or case variants of each other (also containing "
        "separators, spaces and non-ASCII letters where the model package allows them), every pair looked up in both orders and compared "
        "with the table (single entry, stronger direction, mean of available directions). Non-trivial: two pairs with different values, "
        "for directed methods also a pair with two different directions.")


def check(case, ctx):
    b = fitted.Built(case["m"])
    m = b.fit()
    want = {p: v for p, v in fitted.lookup(m, b.kind, b.ascending).items() if len(p) == 2}
    before = fitted.snapshot(m)
    d = fitted.directed(m, b.kind)
    for p, v in want.items():
        x, y = sorted(p)
        for f1, f2 in ((x, y), (y, x)):
            got = m.interaction_value(f1, f2)
            require(oracle.close(got, v, 1e-9 * max(1, abs(v))),
                    f"interaction value of {f1!r}, {f2!r} is {got}, the table has {d.get((f1, f2))} and {d.get((f2, f1))}")
    diff = fitted.same(before, fitted.snapshot(m))
    require(diff is None, f"{diff} changed by lookups")
    both = [p for p in want if (lambda x, y: (x, y) in d and (y, x) in d and d[(x, y)] != d[(y, x)])(*sorted(p))]
    ctx.nontrivial(len(set(want.values())) > 1 and (b.kind not in ("split", "cmd") or bool(both)))
    if both:
        ctx.event("pair with two directions")
    ctx.event(b.kind + (" smaller stronger" if b.ascending else ""))


def cases(**kw):
    return fitted.specs(**kw).map(lambda m: dict(m=m))


SUBTESTS = [
    Sub("agnostic", cases(kinds=["h", "hu", "greenwell", "sejong", "cmd"], names=["a", "b", "a ", " b", "B"] + NAMES[2:], lo=2, max_cols=5, dense=True), check, 350, 6000),
    Sub("trees", cases(kinds=["split", "split", "cmd"], names=SAFE_NAMES, lo=2, max_cols=5, dense=True), check, 350, 6000),
    Sub("wide", cases(names=SAFE_NAMES, lo=7, max_cols=11, dense=True), check, 60, 900),
    Sub("small", cases(names=SAFE_NAMES, lo=2, max_cols=4), check, 300, 6000),
]
