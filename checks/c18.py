"""C18: split score importance against a walk over the dumped trees."""
import math

from hypothesis import strategies as st

from artemis._utilities._handler import GBTreesHandler
from artemis.importance_methods.model_specific import SplitScoreImportance
from artemis.interactions_methods.model_specific import SplitScoreMethod
from lib import gbref, oracle, trees
from lib.harness import Sub
from lib.oracle import require

RULE = ("trained and synthesised XGBoost and LightGBM ensembles, every importance metric, through SplitScoreMethod or standalone (before "
        "or after a fit on the same prepared handler, with or without requested features, tree table passed or not); the table compared "
        "with aggregates over the package's own tree dump. Non-trivial: some feature has at least two splits.")


def check(case, ctx):
    arg, booster = trees.build_gb(case["spec"])
    walk = trees.walk_gb(booster, case["spec"]["lib"])
    want = gbref.importance(walk, case["imp"])
    kw = {"show_progress": True} if case["progress"] else {}
    features = case["features"]
    if case["via"] == "method":
        m = SplitScoreMethod()
        if not (case["default"] and case["imp"] == "mean_gain"):
            kw["importance_selected_metric"] = case["imp"]
        m.fit(arg, interaction_selected_metric=case["inter"], only_def_interactions=case["only"], **kw)
        df = m.feature_importance
    else:
        h = arg if isinstance(arg, GBTreesHandler) else GBTreesHandler(arg)
        if case["via"] == "after":
            SplitScoreMethod().fit(h, interaction_selected_metric=case["inter"])
        if features is not None:
            features = [f for f in features if f < len(case["spec"]["names"])]
            features = [case["spec"]["names"][f] for f in features]
            kw["features"] = list(features)
            want = {f: v for f, v in want.items() if f in features}
        if case["table"]:
            kw["trees_df"] = h.trees_df
        kw["selected_metric"] = case["imp"]
        o = SplitScoreImportance()
        df = o.importance(h, **kw)
        require(df is not None and df.equals(o.feature_importance), "returned table differs from feature_importance")
        if features is not None:
            ctx.event("feature subset")
    got = oracle.feature_table(df, "Importance", "importance")
    require(set(got) == set(want), f"importance lists {sorted(got)}, features with splits are {sorted(want)}")
    for f, v in want.items():
        if v is None:
            require(math.isnan(got[f]) or got[f] == 0, f"{case['imp']} of {f} is {got[f]} although no tree has it at the root")
        else:
            require(gbref.close(got[f], v), f"{case['imp']} of {f} is {got[f]}, its splits give {v}")
    fs = [s["feature"] for s in walk]
    ctx.nontrivial(any(fs.count(f) > 1 for f in want))
    ctx.event(f"{case['spec']['lib']} {case['imp']}")
    ctx.event(case["via"])


extra = dict(via=st.sampled_from(["method", "method", "alone", "alone", "after"]), table=st.booleans(), default=st.booleans(),
             features=st.one_of(st.none(), st.lists(st.integers(0, 4), max_size=3, unique=True)))
SUBTESTS = [
    Sub("synthetic", gbref.requests(trees.synth_specs(), **extra), check, 1500, 25000),
    Sub("deep", gbref.requests(trees.synth_specs(max_trees=2, max_depth=7, lo=2), **extra), check, 300, 6000),
    Sub("many_trees", gbref.requests(trees.grown_specs(**trees.MANY), **extra), check, 24, 400),
    Sub("bushy", gbref.requests(trees.grown_specs(**trees.BUSHY), **extra), check, 40, 600),
    Sub("long", gbref.requests(trees.grown_specs(**trees.LONG), **extra), check, 40, 600),
    Sub("wide", gbref.requests(trees.grown_specs(**trees.WIDE), **extra), check, 40, 600),
    Sub("trained", gbref.requests(trees.trained_specs(), **extra), check, 600, 10000),
]
