"""C16: explaining is read-only and asks the model only well-formed questions."""
import json

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from artemis._utilities._handler import GBTreesHandler
from artemis._utilities.pd_calculator import PartialDependenceCalculator
from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.importance_methods.model_specific import SplitScoreImportance
from artemis.interactions_methods.model_agnostic import SejongOhMethod
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod
from lib import gen, oracle, pdcases, perm, trees
from lib.harness import Sub
from lib.oracle import require

RULE = ("every method on random data, models (regressor, classifier with probabilities, opaque object with prediction function) and "
        "options; the model records each data set it is asked about (columns and order, rows, cell values, which of its functions), "
        "frame, targets, feature list, tree tables and models are compared with deep copies taken before, also at every prediction and "
        "after plotting. Non-trivial: the model was asked about changed data, or tree structure was analysed.")
PD = ["h", "hu", "greenwell", "importance", "additivity", "calculator"]


class Watch:
    """Checks inputs and questions at every prediction."""

    def __init__(self, data, ctx, typed=True):
        self.X, self.typed = data.X, typed
        self.copy = data.X.copy(deep=True)
        self.columns, self.types = list(data.X.columns), list(data.X.dtypes)
        self.hows, self.asked, self.ctx = set(), [], ctx

    def record(self, Q, how):
        self.hows.add(how)
        require(isinstance(Q, pd.DataFrame), f"the model was given a {type(Q).__name__}")
        require(list(Q.columns) == self.columns, f"the model was given columns {list(Q.columns)} instead of {self.columns}")
        require(len(Q) >= 1, "the model was given an empty data set")
        require(not self.typed or list(Q.dtypes) == self.types, f"the model was given columns of types {list(map(str, Q.dtypes))} instead of {list(map(str, self.types))}")
        require(oracle.frames_equal(self.X, self.copy), "the caller's data frame was changed while predicting")
        self.asked.append({c: set(Q[c].tolist()) for c in self.columns})
        if len(Q) != len(self.X) or not Q.reset_index(drop=True).equals(self.copy.reset_index(drop=True)):
            self.ctx.nontrivial()

    def finish(self, sample, how):
        require(oracle.frames_equal(self.X, self.copy), "the caller's data frame was changed")
        allowed = {c: set(sample[c].tolist()) for c in self.columns}
        for q in self.asked:
            for c in self.columns:
                require(q[c] <= allowed[c], f"the model was given {sorted(map(str, q[c] - allowed[c]))} in column {c}, "
                                            f"which the explained sample does not contain")
        require(self.hows == {how}, f"predictions came from {sorted(self.hows)}, expected {how}")


def attrs(model):
    """names of everything stored on a model object"""
    return sorted(getattr(model, "__dict__", ()))


def check_pd(case, ctx):
    s = pdcases.Setup(case)
    watch = Watch(s.data, ctx)
    gen.counter(s.model).record = watch.record
    inner = gen.counter(s.model)
    state = lambda: (json.dumps(inner.spec, sort_keys=True), list(inner.names), dict(inner.kinds), sorted(vars(inner)), attrs(s.model))
    before = state()
    features = None if s.features is None else list(s.features)
    kw = dict(s.fit_kw)
    if features is not None:
        kw["features"] = features
    kind = case["method"]
    if kind == "calculator":
        kw = {k: v for k, v in kw.items() if k in ("predict_function", "batchsize")}
        m = PartialDependenceCalculator(s.model, s.data.X, **kw)
        m.calculate_pd_single(features)
        m.calculate_pd_pairs(all_combinations=case["grid"])
        m.calculate_pd_minus_single(features)
        sample = s.data.X
    elif kind == "additivity":
        m = pdcases.AdditivityMeter(random_state=case["rs"])
        kw.pop("features", None)
        m.fit(s.model, s.data.X, **kw)
    elif kind == "importance":
        m = pdcases.PartialDependenceBasedImportance()
        m.importance(s.model, s.data.X, **kw)
    elif kind == "greenwell":
        m = pdcases.GreenwellMethod(random_state=case["rs"])
        m.fit(s.model, s.data.X, **kw)
    else:
        m = pdcases.FriedmanHStatisticMethod(random_state=case["rs"], normalized=kind == "h")
        m.fit(s.model, s.data.X, **kw)
    if kind != "calculator":
        sample = m.X_sampled
    require(features == s.features, f"the caller's feature list became {features}")
    require(state() == before, f"the model was changed: {state()}, was {before}")
    how = {"reg": "predict", "proba": "predict_proba", "proba3": "predict_proba", "pf": "predict_function"}[case["model"]["kind"]]
    watch.finish(sample, how)
    # the numbers explained are those of the right output (of the second class among the probabilities)
    ref = oracle.PD(case["model"], s.data.encode(sample))
    if kind == "calculator":
        for f in s.requested:
            want = ref.grid(s.col(f))
            got = m.get_pd_single(f)
            require(len(got) == len(want) and np.allclose(np.sort(got), np.sort(want), rtol=0, atol=1e-8 * ref.scale),
                    f"partial dependence on {f} is {got}, that of the output to be explained is {want}")
    elif kind == "additivity":
        want = ref.preds - np.mean(ref.preds)
        got = np.asarray(m.full_result["centered_prediction"], dtype=float)
        require(np.allclose(got, want, rtol=0, atol=1e-8 * ref.scale), f"predictions explained are {got}, expected {want} (centred)")
    else:
        pdcases.check_importance(m.feature_importance, s, ref)
    ctx.event(kind + " via " + how)
    if kind in ("h", "hu", "greenwell") and case["plot"]:
        m.plot_profile(s.requested[0])
        if kind == "greenwell" and all(s.numeric(f) for f in s.requested[:2]):
            m.plot_profile(s.requested[0], s.requested[1])
        require(oracle.frames_equal(s.data.X, watch.copy), "plotting changed the caller's data frame")


def y_state(y):
    if isinstance(y, list):
        return ("list", tuple(y))
    if isinstance(y, pd.Series):
        return ("series", tuple(y.values.tolist()), tuple(y.index), str(y.dtype))
    return ("array", tuple(y.tolist()), str(y.dtype))


def check_perm(case, ctx):
    s = perm.PermSetup(case)
    watch = Watch(s.data, ctx, typed=case["method"] == "perm")
    s.model.record = watch.record
    y_before, model_before = y_state(s.y), attrs(s.model)
    kw = dict(s.kw)
    if "features" in kw:
        kw["features"] = features = list(kw["features"])
    if case["method"] == "perm":
        PermutationImportance(random_state=case["rs"], **s.metric_kw).importance(s.model, s.data.X, s.y, n_repeat=case["reps"], **kw)
        sample = s.data.X
    else:
        m = SejongOhMethod(random_state=case["rs"], **s.metric_kw)
        if case["n"] is not None:
            kw["n"] = max(1, min(s.data.n, case["n"]))
        m.fit(s.model, s.data.X, s.y, n_repeat=case["reps"], **kw)
        sample = m.X_sampled
    require(y_state(s.y) == y_before, f"the caller's targets became {y_state(s.y)}, were {y_before}")
    require(attrs(s.model) == model_before, f"the model was changed: it holds {attrs(s.model)}, held {model_before}")
    if "features" in kw:
        require(features == case["features"], f"the caller's feature list became {features}")
    watch.finish(sample, "predict")
    # a shuffled data set holds in every column the same multiset as the sample: only whole rows of values move
    ctx.event(case["method"])


def check_gb(case, ctx):
    arg, booster = trees.build_gb(case["spec"])
    dump = lambda: (booster.get_dump(with_stats=True, dump_format="json") if case["spec"]["lib"] == "xgb"
                    else json.dumps(booster.dump_model(), sort_keys=True))
    outer = None if isinstance(arg, GBTreesHandler) else arg
    state = lambda: (dump(), json.dumps(outer.get_params(), default=str) if hasattr(outer, "get_params") else None, attrs(outer))
    before = state()
    handler = arg if isinstance(arg, GBTreesHandler) else None
    if case["use"] == "importance" and handler is None:
        arg = handler = GBTreesHandler(arg)
    table = handler.trees_df.copy(deep=True) if handler is not None else None
    features = list(case["spec"]["names"][:2])
    if case["use"] == "importance":
        SplitScoreImportance().importance(arg, features=features if case["subset"] else None, selected_metric=case["imp"])
        require(features == list(case["spec"]["names"][:2]), "the caller's feature list was changed")
    else:
        m = SplitScoreMethod()
        m.fit(arg, interaction_selected_metric=case["inter"], importance_selected_metric=case["imp"], only_def_interactions=case["only"])
        if case["plot"] and len(m.ovo):
            m.plot("bar_chart")
    if handler is not None:
        require(handler.trees_df.equals(table) and list(handler.trees_df.columns) == list(table.columns)
                and list(handler.trees_df.dtypes) == list(table.dtypes), "the prepared tree structure was changed")
    require(state() == before, "the model was changed")
    ctx.nontrivial()
    ctx.event(case["use"] + (" handler" if handler is not None else " model"))


def forest_state(model):
    out = [attrs(model), list(model.feature_names_in_), json.dumps(model.get_params(), default=str)]
    for e in model.estimators_:
        t = e.tree_
        out += [t.children_left.tolist(), t.children_right.tolist(), t.feature.tolist(), t.threshold.tolist(), t.value.tolist()]
    return out


def check_forest(case, ctx):
    model = trees.build_forest(case["spec"])
    before = forest_state(model)
    m = ConditionalMinimalDepthMethod()
    m.fit(model)
    require(forest_state(model) == before, "the forest was changed")
    ctx.nontrivial(any(e.tree_.node_count > 1 for e in model.estimators_))


def pd_cases(**kw):
    return st.tuples(pdcases.fit_cases(min_feat=2, **kw), st.sampled_from(PD), st.booleans(), st.integers(0, 3)).map(
        lambda t: dict(t[0], method=t[1], grid=t[2], plot=t[3] == 0))


perm_c = st.tuples(perm.perm_cases(max_rows=6), st.sampled_from(["perm", "sejong"]), st.one_of(st.none(), st.integers(1, 6)),
                   st.integers(1, 3)).map(lambda t: dict(t[0], method=t[1], n=t[2], reps=t[3]))
GB = dict(spec=st.one_of(trees.synth_specs(), trees.trained_specs()), use=st.sampled_from(["importance", "fit"]),
          inter=st.sampled_from(["sum_gain", "mean_gain", "mean_depth"]), subset=st.booleans(), plot=st.integers(0, 4).map(lambda x: x == 0),
          imp=st.sampled_from(["sum_gain", "mean_gain", "mean_depth", "mean_weighted_depth", "root_frequency"]), only=st.booleans())

SUBTESTS = [
    Sub("partial_dependence", pd_cases(), check_pd, 900, 15000),
    Sub("rich", pd_cases(dense=True, big=(7, 4), min_terms=2), check_pd, 500, 8000),
    Sub("performance", perm_c, check_perm, 600, 10000),
    Sub("boosted", st.fixed_dictionaries(GB), check_gb, 300, 5000),
    Sub("forest", st.builds(lambda s: dict(spec=s), trees.forest_specs()), check_forest, 120, 2000),
]
