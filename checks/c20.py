"""C20: conditional minimal depth against a recursive walk over the trees of the forest."""
import math

from hypothesis import strategies as st

from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod
from lib import oracle, trees
from lib.harness import Sub
from lib.oracle import require

RULE = ("trained scikit-learn forests of all four classes (depth limits, max_leaf_nodes, unused and constant features, one to six trees) "
        "and forests with synthesised tree structures in arbitrary growth order; every row of the table compared with a recursive walk "
        "over linked nodes. Non-trivial: some pair is found below its root feature in some tree, and some pair uses the leaf rule or is "
        "missing.")


def check(case, ctx):
    model = trees.build_forest(case["spec"])
    want = trees.cmd_reference(model)
    m = ConditionalMinimalDepthMethod()
    m.fit(model, **({"show_progress": True} if case["progress"] else {}))
    got = {}
    for a, b, v, n in oracle.rows(m.ovo, ["root_variable", "variable", m.method, "n_occurences"], "ovo"):
        require((a, b) not in got, f"ovo lists {a}, {b} twice")
        got[(a, b)] = (None if v is None or math.isnan(float(v)) else float(v), n)
    require(set(got) == set(want), f"ovo lists {sorted(got)}, ordered pairs are {sorted(want)}")
    for (a, b), (v, n) in want.items():
        gv, gn = got[(a, b)]
        if v is None:
            require(gv is None, f"value {gv} of root {a}, variable {b}, which never occur in one tree")
        else:
            require(gv is not None and abs(gv - v) <= 1e-9 * max(1, v), f"value of root {a}, variable {b} is {gv}, the trees give {v}")
        require(int(gn) == n, f"{gn} occurrences of root {a}, variable {b}, the trees give {n}")
    k = len(model.estimators_)
    ctx.nontrivial(any(n > 0 for _, n in want.values()) and any(v is None or n < k for v, n in want.values()))
    if case["spec"].get("mln"):
        ctx.event("max_leaf_nodes")
    ctx.event(f"{case['spec']['cls']} {'synthetic' if {'shapes', 'tr'} & set(case['spec']) else 'trained'}")


def cases(s):
    return st.builds(lambda spec, p: dict(spec=spec, progress=p == 0), s, st.integers(0, 9))


SUBTESTS = [
    Sub("synthetic", cases(trees.synth_forest_specs()), check, 900, 16000),
    Sub("deep", cases(trees.synth_forest_specs(max_trees=2, max_depth=7)), check, 250, 5000),
    Sub("many_trees", cases(trees.grown_forest_specs(**trees.MANY)), check, 24, 400),
    Sub("bushy", cases(trees.grown_forest_specs(**trees.BUSHY)), check, 40, 600),
    Sub("long", cases(trees.grown_forest_specs(**trees.LONG)), check, 40, 600),
    Sub("wide", cases(trees.grown_forest_specs(**trees.WIDE)), check, 40, 600),
    Sub("trained_large", cases(trees.forest_specs(max_trees=40, max_rows=150, hi=9)), check, 24, 500),
    Sub("trained", cases(trees.forest_specs(max_trees=6)), check, 500, 9000),
]
