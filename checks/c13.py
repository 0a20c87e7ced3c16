"""C13: result tables hold what was asked exactly once, strongest first."""
import itertools
import math

from hypothesis import strategies as st

from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.importance_methods.model_specific import SplitScoreImportance
from artemis.interactions_methods.model_agnostic import SejongOhMethod
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod
from artemis._utilities._handler import GBTreesHandler
from lib import gen, oracle, pdcases, perm, trees
from lib.harness import Sub
from lib.oracle import require

RULE = ("all interaction and importance methods with random data, models, feature subsets, metrics and options; every result table "
        "checked for completeness, duplicates, missing values, ordering and row labels. Non-trivial: some table has at least two "
        "rows with different values.")
INTER = ["sum_gain", "mean_gain", "mean_depth", "sum_cover", "mean_cover"]
IMPORT = INTER + ["mean_weighted_depth", "root_frequency", "weighted_root_frequency"]
SMALLER_IS_STRONGER = ("mean_depth", "mean_weighted_depth")


def ordered(values, ascending, what):
    """values monotone, missing ones last"""
    seen_nan = False
    prev = None
    for v in values:
        if math.isnan(v):
            seen_nan = True
            continue
        require(not seen_nan, f"{what}: a missing value is ranked before {v}")
        if prev is not None:
            require(prev <= v if ascending else prev >= v, f"{what} is not ordered from strongest to weakest: {prev} before {v}")
        prev = v


def labels(df, what):
    require([int(i) for i in df.index] == list(range(len(df))), f"{what} has row labels {list(df.index)[:20]}")


def spread(values):
    vals = [v for v in values if not math.isnan(v)]
    return len(set(vals)) > 1


def feature_rank(df, column, want, ascending, what, ctx, missing=False, label=True):
    t = oracle.rows(df, ["Feature", column], what)
    fs = [f for f, _ in t]
    require(len(set(fs)) == len(fs), f"{what} lists a feature twice: {fs}")
    if want is not None:
        require(set(fs) == set(want), f"{what} lists {sorted(fs)}, expected {sorted(want)}")
    vals = [oracle.number(v, what) for _, v in t]
    if not missing:
        require(not any(map(math.isnan, vals)), f"{what} has missing values: {t}")
    ordered(vals, ascending, what)
    if label:
        labels(df, what)
    ctx.nontrivial(spread(vals))


def agnostic(m, requested, ctx):
    t = oracle.rows(m.ovo, ["Feature 1", "Feature 2", m.method], "ovo")
    pairs = [frozenset(r[:2]) for r in t]
    require(len(set(pairs)) == len(pairs), f"ovo lists a pair twice: {[r[:2] for r in t]}")
    require(set(pairs) == oracle.all_pairs(requested), f"ovo lists {[r[:2] for r in t]} for features {sorted(requested)}")
    vals = [oracle.number(r[2], "ovo") for r in t]
    require(not any(map(math.isnan, vals)), f"ovo has missing values: {t}")
    ordered(vals, False, "ovo")
    labels(m.ovo, "ovo")
    ctx.nontrivial(spread(vals))
    feature_rank(m.feature_importance, "Importance", requested, False, "importance", ctx)


def check_pd(case, ctx):
    s = pdcases.Setup(case)
    ctx.event(case["method"])
    if case["method"] == "importance":
        feature_rank(s.importance().feature_importance, "Importance", s.requested, False, "importance", ctx)
        return
    if case["method"] == "greenwell":
        m = s.greenwell()
    else:
        m = s.h(normalized=case["method"] == "h")
        feature_rank(m.ova, m.method, s.requested, False, "ova", ctx)
    agnostic(m, s.requested, ctx)


def check_perm(case, ctx):
    s = perm.PermSetup(case)
    if case["method"] == "perm":
        out = PermutationImportance(random_state=case["rs"], **s.metric_kw).importance(s.model, s.data.X, s.y, n_repeat=case["reps"],
                                                                                      **s.kw)
        feature_rank(out, "Importance", s.requested, False, "permutation importance", ctx)
    else:
        m = SejongOhMethod(random_state=case["rs"], **s.metric_kw)
        m.fit(s.model, s.data.X, s.y, n_repeat=case["reps"], **s.kw)
        agnostic(m, s.requested, ctx)
    ctx.event(case["method"])


def check_gb(case, ctx):
    arg, booster = trees.build_gb(case["spec"])
    lib = case["spec"]["lib"]
    walk = trees.walk_gb(booster, lib)
    if not walk:
        ctx.event("no splits")
    inter, imp = case["inter"], case["imp"]
    if lib == "lgb":
        inter, imp = [x.replace("cover", "gain") for x in (inter, imp)]
    if case["alone"]:
        h = arg if isinstance(arg, GBTreesHandler) else GBTreesHandler(arg)
        out = SplitScoreImportance().importance(h, selected_metric=imp)
        feature_rank(out, "Importance", {s["feature"] for s in walk}, imp in SMALLER_IS_STRONGER, f"{imp} importance", ctx, missing=True)
        ctx.event("importance alone")
        return
    m = SplitScoreMethod()
    m.fit(arg, interaction_selected_metric=inter, importance_selected_metric=imp, only_def_interactions=case["only"])
    t = oracle.rows(m.ovo, ["Feature 1", "Feature 2", m.method], "ovo")
    pairs = [r[:2] for r in t]
    require(len(set(pairs)) == len(pairs), f"ovo lists a parent-child pair twice: {pairs}")
    possible = {(s["parent"][0], s["feature"]) for s in walk if s["parent"]}
    require(set(pairs) <= possible, f"ovo lists {sorted(set(pairs) - possible)}, which are no consecutive splits")
    vals = [oracle.number(r[2], "ovo") for r in t]
    ordered(vals, inter in SMALLER_IS_STRONGER, f"{inter} ovo")
    labels(m.ovo, "ovo")
    ctx.nontrivial(spread(vals))
    feature_rank(m.feature_importance, "Importance", {s["feature"] for s in walk}, imp in SMALLER_IS_STRONGER, f"{imp} importance", ctx,
                 missing=True)
    ctx.event(lib)


def check_forest(case, ctx):
    model = trees.build_forest(case["spec"])
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    t = oracle.rows(m.ovo, ["root_variable", "variable", m.method, "n_occurences"], "ovo")
    pairs = [r[:2] for r in t]
    want = set(itertools.permutations(case["spec"]["names"], 2))
    require(len(set(pairs)) == len(pairs), f"ovo lists an ordered pair twice: {pairs}")
    require(set(pairs) == want, f"ovo lists {sorted(pairs)}, expected {sorted(want)}")
    val = lambda v: math.nan if v is None else oracle.number(v, "ovo")
    occ = [int(r[3]) for r in t]
    ordered([float(o) for o in occ], False, "number of occurrences")
    for o in set(occ):
        ordered([val(r[2]) for r in t if int(r[3]) == o], True, f"values with {o} occurrences")
    ctx.nontrivial(len(set(occ)) > 1 or spread([val(r[2]) for r in t]))
    feature_rank(m.feature_importance, "Importance", None, True, "minimal depth importance", ctx, label=False)
    ctx.event(case["spec"]["cls"])


def with_method(strategy, methods, **extra):
    return st.tuples(strategy, st.sampled_from(methods), st.integers(1, 3)).map(lambda t: dict(t[0], method=t[1], reps=t[2]))


def gb_of(specs):
    return st.fixed_dictionaries(dict(spec=specs, inter=st.sampled_from(INTER), imp=st.sampled_from(IMPORT), only=st.booleans(),
                                      alone=st.integers(0, 3).map(lambda x: x == 0)))


SUBTESTS = [
    Sub("rich", with_method(pdcases.rich(min_cols=2, max_cols=5, big=(7, 4)), ["h", "hu", "greenwell", "importance"]), check_pd, 500, 8000),
    Sub("partial_dependence", with_method(pdcases.fit_cases(max_rows=5), ["h", "hu", "greenwell", "importance"]), check_pd, 500, 8000),
    Sub("performance", with_method(perm.perm_cases(max_rows=7, max_cols=5), ["perm", "sejong"]), check_perm, 500, 8000),
    Sub("performance_rich", with_method(perm.perm_cases(max_rows=7, max_cols=5, dense=True, min_rows=3), ["perm", "sejong"]),
        check_perm, 500, 8000),
    Sub("wide", with_method(pdcases.rich(min_cols=6, max_cols=9, big=(4, 3), min_rows=2, min_feat=5), ["h", "hu", "greenwell", "importance"]), check_pd, 64, 1500),
    Sub("performance_wide", with_method(perm.perm_cases(max_rows=4, max_cols=9, min_cols=6, dense=True, min_rows=2), ["perm", "sejong"]),
        check_perm, 100, 2000),
    Sub("boosted", gb_of(st.one_of(trees.synth_specs(), trees.trained_specs())), check_gb, 700, 10000),
    Sub("boosted_wide", gb_of(trees.grown_specs(**trees.WIDE)), check_gb, 40, 600),
    Sub("boosted_many", gb_of(trees.grown_specs(**trees.MANY)), check_gb, 24, 400),
    Sub("forest_wide", st.builds(lambda s: dict(spec=s), trees.grown_forest_specs(**trees.WIDE)), check_forest, 40, 600),
    Sub("forest_many", st.builds(lambda s: dict(spec=s), trees.grown_forest_specs(**trees.MANY)), check_forest, 24, 400),
    Sub("forest", st.builds(lambda s: dict(spec=s), trees.forest_specs()), check_forest, 300, 5000),
]
