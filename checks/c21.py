"""C21: minimal depth importance against a recursive walk over the trees of the forest."""
from hypothesis import strategies as st

from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod
from lib import oracle, trees
from lib.harness import Sub
from lib.oracle import require

RULE = ("trained scikit-learn forests of all four classes and forests with synthesised tree structures in arbitrary growth order; the "
        "importance table compared with a recursive walk over linked nodes. Non-trivial: some feature is used in several trees at "
        "different minimal depths, or some feature is unused.")


def check(case, ctx):
    model = trees.build_forest(case["spec"])
    want = trees.min_depth_reference(model)
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    got = oracle.feature_table(m.feature_importance, "Importance", "importance")
    require(set(got) == set(want), f"importance lists {sorted(got)}, features used are {sorted(want)}")
    for f, v in want.items():
        require(abs(got[f] - v) <= 1e-9 * max(1, v), f"importance of {f} is {got[f]}, the trees give {v}")
    ctx.nontrivial(any(v != int(v) for v in want.values()) or len(want) < len(case["spec"]["names"]))
    ctx.event(f"{case['spec']['cls']} {'synthetic' if {'shapes', 'tr'} & set(case['spec']) else 'trained'}")


def cases(s):
    return s.map(lambda spec: dict(spec=spec))


SUBTESTS = [
    Sub("synthetic", cases(trees.synth_forest_specs(lo=1)), check, 900, 16000),
    Sub("deep", cases(trees.synth_forest_specs(max_trees=2, max_depth=7)), check, 200, 5000),
    Sub("many_trees", cases(trees.grown_forest_specs(**trees.MANY)), check, 24, 400),
    Sub("bushy", cases(trees.grown_forest_specs(**trees.BUSHY)), check, 40, 600),
    Sub("long", cases(trees.grown_forest_specs(**trees.LONG)), check, 40, 600),
    Sub("wide", cases(trees.grown_forest_specs(**trees.WIDE)), check, 40, 600),
    Sub("trained_large", cases(trees.forest_specs(max_trees=40, max_rows=150, hi=9)), check, 24, 500),
    Sub("trained", cases(trees.forest_specs(max_trees=6)), check, 500, 9000),
]
