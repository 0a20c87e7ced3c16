"""C19: unsupported requests are rejected with the dedicated exception, documented ones are accepted."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.ensemble import GradientBoostingRegressor, HistGradientBoostingRegressor, RandomForestRegressor
from sklearn.linear_model import LinearRegression
from sklearn.tree import DecisionTreeRegressor

from artemis._utilities import exceptions as ex
from artemis._utilities._handler import GBTreesHandler
from artemis.comparison import FeatureInteractionMethodComparator
from artemis.importance_methods.model_specific import MinimalDepthImportance
from lib import fitted, gbref, gen, oracle, trees
from lib.gen import SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("requests drawn from all methods, visualization names (documented, misspelt, other methods' and random), operations needing a "
        "fit, comparisons with one or both sides unfitted, metrics and model forms, in sequences before and after fits; each must raise "
        "the dedicated exception or be accepted as documented, and after a rejection tables, lookups and rankings must be as before. "
        "Non-trivial: at least one request was rejected and, for histories, results existed before it.")


def rejected(fn, cls, what):
    try:
        fn()
    except cls:
        return
    except Exception as e:
        raise oracle.Violation(f"{what} raised {type(e).__name__} ({e}) instead of {cls.__name__}")
    raise oracle.Violation(f"{what} was accepted, {cls.__name__} expected")


# ---------------------------------------------------------------- before fit

UNFITTED = ["plot", "lookup", "summary", "correlations", "correlation", "comparison_plot", "profile", "profile2", "zenplot"]


def check_unfitted(case, ctx):
    kind = case["kind"]
    m = fitted.new(kind, case["rs"])
    other = None
    if case["other"] is not None:
        b = fitted.Built(case["other"])
        other = b.fit()
    if other is None or len(fitted.table(other, b.kind)) == 0:
        other = fitted.new(case["kind2"])
    comp = FeatureInteractionMethodComparator()
    left, right = (m, other) if case["left"] else (other, m)
    for op in case["ops"]:
        if op in ("profile", "profile2", "zenplot") and kind not in fitted.PD_KINDS:
            continue
        fn = {
            "plot": lambda: m.plot(case["vis"] if case["vis"] in fitted.VIS[kind] else "heatmap"),
            "lookup": lambda: m.interaction_value("a", "b"),
            "summary": lambda: comp.summary(left, right),
            "correlations": lambda: comp.correlations(left, right),
            "correlation": lambda: comp.correlation(left, right, case["corr"]),
            "comparison_plot": lambda: comp.comparison_plot(left, right, add_correlation_box=case["box"]),
            "profile": lambda: m.plot_profile("a"),
            "profile2": lambda: m.plot_profile("a", "b"),
            "zenplot": lambda: m.plot_zenplot(),
        }[op]
        rejected(fn, ex.MethodNotFittedException, f"{op} of unfitted {kind}")
        require(m.ovo is None and m.feature_importance is None, f"{op} of unfitted {kind} left results behind")
        ctx.event(op)
        ctx.nontrivial()
    require(comp.correlations_df is None and comp.ovo_profiles_comparison_plot is None, "a rejected comparison left results behind")


# ---------------------------------------------------------------- visualizations

NONSENSE = ["", "Heatmap", "HEATMAP", "heat_map", "bar", "barchart", "bar_chart_ovo", "lolliplot", "lollipop ", "graphs", "interaction_graph",
            "bar_chart_conditional_", "all", "None", "summary\n", "matrix", "ova", "pie"]


def check_vis(case, ctx):
    b = fitted.Built(case["m"])
    kind = b.kind
    extra = {"calculate_ova": False} if case["no_ova"] and kind in ("h", "hu") else {}
    m = b.fit(**extra)
    before = fitted.snapshot(m)
    values = fitted.lookup(m, kind, b.ascending)
    for vis in case["vis"]:
        if vis in fitted.VIS[kind]:
            if extra and vis == "bar_chart_ova":
                rejected(lambda: m.plot(vis), ex.MethodNotFittedException, "one versus all chart without one versus all results")
                ctx.nontrivial()
            elif len(fitted.table(m, kind)) and all(len(p) == 2 for p in values):
                m.plot(vis)
                ctx.event("accepted " + vis)
        else:
            rejected(lambda: m.plot(vis), ex.VisualizationNotSupportedException, f"visualization {vis!r} of {kind}")
            ctx.nontrivial()
            ctx.event(kind + " rejected")
        diff = fitted.same(before, fitted.snapshot(m))
        require(diff is None, f"{diff} changed by a request for {vis!r}")
    for pair, v in values.items():
        if len(pair) == 2:
            a, c = sorted(pair)
            require(oracle.close(m.interaction_value(a, c), v, 1e-9 * max(1, abs(v))), f"value of {a},{c} changed after plots")


# ---------------------------------------------------------------- split score models and metrics

class Booster:
    """an object of a class that only looks like a booster"""


class XGBRegressor(LinearRegression):
    """scikit-learn model whose class is named like one of XGBoost"""


def of_module(module):
    """an object of a class of a module whose path mentions a supported library"""
    return type("Booster", (), {"__module__": module})()


MODULES = ["tools.xgboost", "xgboost_ray.main", "my_lightgbm", "lightgbmx.sklearn", "tools.lightgbm.basic", "XGBoost.core", "notxgboost"]


def foreign(kind):
    if kind in MODULES:
        return of_module(kind)
    X = pd.DataFrame({"a": [0., 1, 2, 3, 4, 5], "b": [1., 0, 1, 0, 2, 2]})
    y = [0., 1, 1, 0, 3, 2]
    if kind in SK:
        return SK[kind]().fit(X, y)
    return {"text": "xgboost", "dict": {"xgboost": 1}, "lookalike": Booster(), "frame": X, "function": np.mean, "array": np.zeros(3)}[kind]


SK = {"gbr": lambda: GradientBoostingRegressor(n_estimators=2), "hgb": lambda: HistGradientBoostingRegressor(max_iter=1),
      "rf": lambda: RandomForestRegressor(2), "lin": LinearRegression, "tree": DecisionTreeRegressor, "named": XGBRegressor}
FOREIGN = sorted(SK) + ["text", "dict", "lookalike", "frame", "function", "array"] + MODULES


def check_split(case, ctx):
    """a history of accepted and rejected fits of one object"""
    m = fitted.new("split")
    last = None
    for step in case["steps"]:
        if step["do"] == "foreign":
            obj = foreign(step["what"])
            if step["handler"]:
                rejected(lambda: GBTreesHandler(obj), ex.ModelNotSupportedException, f"handler of {step['what']}")
            else:
                rejected(lambda: m.fit(obj, interaction_selected_metric=step["inter"]), ex.ModelNotSupportedException,
                         f"fit of {step['what']}")
            ctx.nontrivial(last is not None)
            ctx.event("foreign model")
        else:
            arg, booster = trees.build_gb(step["spec"])
            lib = step["spec"]["lib"]
            fit = lambda: m.fit(arg, interaction_selected_metric=step["inter"], importance_selected_metric=step["imp"],
                                only_def_interactions=step["only"])
            if gbref.supported(step["inter"], lib) and gbref.supported(step["imp"], lib):
                fit()
                walk = trees.walk_gb(booster, lib)
                last = (fitted.snapshot(m), gbref.interactions(walk, step["inter"], step["only"])[0], step["inter"] == "mean_depth")
                ctx.event(f"accepted {lib} {step['spec']['form']}")
            else:
                rejected(fit, ex.MetricNotSupportedException, f"{step['inter']}/{step['imp']} for {lib}")
                ctx.nontrivial(last is not None)
                ctx.event("metric rejected")
        if last is not None:
            snap, want, asc = last
            diff = fitted.same(snap, fitted.snapshot(m))
            require(diff is None, f"a rejected request changed {diff}")
            for (a, c), v in want.items():
                best = v if (c, a) not in want else (min if asc else max)(v, want[(c, a)])
                got = m.interaction_value(a, c)
                require(gbref.close(got, best), f"value of {a},{c} is {got} after a rejected request, was {best}")
        else:
            require(m.ovo is None, "a rejected fit left results behind")
            rejected(lambda: m.plot(), ex.MethodNotFittedException, "plot after rejected fits")


def check_minimal_depth(case, ctx):
    model = trees.build_forest(case["spec"])
    o = MinimalDepthImportance()
    if case["fit"]:
        fitted.new("cmd").fit(model)
    rejected(lambda: o.importance(model, None), ex.FeatureImportanceWithoutInteractionException, "minimal depth without interaction data")
    require(o.feature_importance is None, "a rejected importance left results behind")
    ctx.nontrivial()


@st.composite
def steps(draw):
    if draw(st.integers(0, 4)) == 0:
        return dict(do="foreign", what=draw(st.sampled_from(FOREIGN)), handler=draw(st.booleans()),
                    inter=draw(st.sampled_from(gbref.INTER)))
    spec = draw(st.one_of(trees.synth_specs(max_trees=2, max_depth=3), trees.synth_specs(max_trees=2, max_depth=3), trees.trained_specs(max_rounds=2)))
    return dict(do="fit", spec=spec, inter=draw(st.sampled_from(gbref.INTER)), imp=draw(st.sampled_from(gbref.IMPORT)), only=draw(st.booleans()))


unfitted = st.fixed_dictionaries(dict(
    kind=st.sampled_from(fitted.KINDS), kind2=st.sampled_from(fitted.KINDS), rs=st.sampled_from([None, 3]),
    other=st.one_of(st.none(), fitted.specs(small=True, trained=False, max_cols=3)), left=st.booleans(), box=st.booleans(),
    corr=st.sampled_from(["kendall", "pearson", "spearman"]), vis=st.sampled_from(fitted.ALL_VIS),
    ops=st.lists(st.sampled_from(UNFITTED), min_size=1, max_size=5, unique=True)))
vis = st.fixed_dictionaries(dict(
    m=fitted.specs(small=True, max_cols=3), no_ova=st.booleans(),
    vis=st.lists(st.one_of(st.sampled_from(fitted.ALL_VIS), st.sampled_from(NONSENSE), st.text(max_size=6)), min_size=1, max_size=4)))
SUBTESTS = [
    Sub("before_fit", unfitted, check_unfitted, 700, 10000),
    Sub("visualizations", vis, check_vis, 500, 8000),
    Sub("split_score", st.fixed_dictionaries(dict(steps=st.lists(steps(), min_size=1, max_size=5))), check_split, 700, 10000),
    Sub("minimal_depth", st.builds(lambda s, f: dict(spec=s, fit=f), trees.forest_specs(max_trees=2), st.booleans()), check_minimal_depth, 40, 300),
]
