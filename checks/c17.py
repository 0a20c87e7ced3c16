"""C17: split score interactions against a walk over the dumped trees."""
import math

from hypothesis import strategies as st

from artemis.interactions_methods.model_specific import SplitScoreMethod
from lib import gbref, oracle, trees
from lib.harness import Sub
from lib.oracle import require

RULE = ("XGBoost and LightGBM ensembles, trained (regression, binary, multiclass; depth-wise, leaf-wise; gbtree, dart; wrapper, booster "
        "or prepared handler) or synthesised node by node with arbitrary structures, gains and covers; every metric, with and without the "
        "restriction; the interaction table compared with aggregates over the package's own tree dump. Non-trivial: at least one "
        "pair of consecutive splits exists and some consecutive split is excluded by the restriction or aggregated with another.")


def check(case, ctx):
    arg, booster = trees.build_gb(case["spec"])
    walk = trees.walk_gb(booster, case["spec"]["lib"])
    m = SplitScoreMethod()
    fits = [(case["inter"], case["only"])]
    if case["twice"]:
        fits.insert(0, ("mean_depth" if case["inter"] != "mean_depth" else "sum_gain", not case["only"]))
    for inter, only in fits:
        kw = {"show_progress": True} if case["progress"] else {}
        if not (case["default"] and only):
            kw["only_def_interactions"] = only
        if not (case["default"] and inter == "mean_gain"):
            kw["interaction_selected_metric"] = inter
        m.fit(arg, importance_selected_metric=case["imp"], **kw)
    inter, only = fits[-1]
    want, groups = gbref.interactions(walk, inter, only)
    got = {}
    for a, b, v in oracle.rows(m.ovo, ["Feature 1", "Feature 2", m.method], "ovo"):
        require((a, b) not in got, f"{a} -> {b} is listed twice")
        got[(a, b)] = v
    require(set(got) == set(want), f"pairs {sorted(got)} are listed, consecutive splits to count are {sorted(want)}")
    for k, v in want.items():
        require(gbref.close(got[k], v), f"{inter} of {k[0]} -> {k[1]} is {got[k]}, its {len(groups[k])} child splits give {v}")
    if want:
        names = ["sum_gain", "mean_gain", "mean_depth"] + (["sum_cover", "mean_cover"] if case["spec"]["lib"] == "xgb" else [])
        full = {}
        for a, b, n, *v in oracle.rows(m.full_ovo, ["parent_feature", "child_feature", "frequency"] + names, "full_ovo"):
            require((a, b) not in full, f"{a} -> {b} is listed twice in the table of all aggregates")
            full[(a, b)] = (n, v)
        require(set(full) == set(want), f"the table of all aggregates lists {sorted(full)}, consecutive splits to count are {sorted(want)}")
        for k, g in groups.items():
            require(int(full[k][0]) == len(g), f"frequency of {k[0]} -> {k[1]} is {full[k][0]}, {len(g)} splits are counted")
            for name, v in zip(names, full[k][1]):
                require(gbref.close(v, gbref.aggregate(g, name)), f"{name} of {k[0]} -> {k[1]} is {v} in the table of all aggregates, its splits give "
                        f"{gbref.aggregate(g, name)}")
    allp, _ = gbref.interactions(walk, inter, False)
    ctx.nontrivial(any(len(g) > 1 for g in groups.values()) or set(allp) != set(want))
    ctx.event(f"{case['spec']['lib']} {'synthetic' if {'trees', 'shapes', 'tr'} & set(case['spec']) else case['spec']['form']}")
    ctx.event(f"{inter}{', restricted' if only else ''}")
    if not want:
        ctx.event("empty table")


extra = dict(twice=st.integers(0, 3).map(lambda x: x == 0), default=st.booleans())
SUBTESTS = [
    Sub("synthetic", gbref.requests(trees.synth_specs(), **extra), check, 1500, 25000),
    Sub("deep", gbref.requests(trees.synth_specs(max_trees=2, max_depth=7, lo=2), **extra), check, 300, 6000),
    Sub("many_trees", gbref.requests(trees.grown_specs(**trees.MANY), **extra), check, 24, 400),
    Sub("bushy", gbref.requests(trees.grown_specs(**trees.BUSHY), **extra), check, 40, 600),
    Sub("long", gbref.requests(trees.grown_specs(**trees.LONG), **extra), check, 40, 600),
    Sub("wide", gbref.requests(trees.grown_specs(**trees.WIDE), **extra), check, 40, 600),
    Sub("trained", gbref.requests(trees.trained_specs(), **extra), check, 600, 10000),
]
