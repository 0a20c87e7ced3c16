"""Methods of every kind, described by JSON-able specs, for the checks that treat all methods alike.

spec: {"kind": h|hu|greenwell, "case": pdcases case} | {"kind": "sejong", "case": perm case + n, reps}
      {"kind": "split", "spec": boosted spec, "inter", "imp", "only"} | {"kind": "cmd", "spec": forest spec}
"""
import math

import numpy as np
from hypothesis import strategies as st

from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from artemis.interactions_methods.model_specific import ConditionalMinimalDepthMethod, SplitScoreMethod
from lib import gbref, gen, oracle, pdcases, perm, trees
from lib.gen import SAFE_NAMES
from lib.oracle import require

KINDS = ["h", "hu", "greenwell", "sejong", "split", "cmd"]
PD_KINDS = ["h", "hu", "greenwell"]
VIS = {  # documented visualizations per method
    "h": ["heatmap", "bar_chart", "graph", "bar_chart_ova", "summary"],
    "greenwell": ["heatmap", "bar_chart", "graph", "summary"],
    "sejong": ["heatmap", "bar_chart", "graph", "summary"],
    "split": ["heatmap", "bar_chart", "graph", "lollipop", "summary"],
    "cmd": ["heatmap", "bar_chart", "graph", "bar_chart_conditional", "summary"],
}
VIS["hu"] = VIS["h"]
ALL_VIS = ["heatmap", "bar_chart", "graph", "bar_chart_ova", "summary", "lollipop", "bar_chart_conditional"]


def new(kind, rs=None, metric=None):
    if kind in ("h", "hu"):
        return FriedmanHStatisticMethod(random_state=rs, normalized=kind == "h")
    if kind == "greenwell":
        return GreenwellMethod(random_state=rs)
    if kind == "sejong":
        return SejongOhMethod(random_state=rs, **({} if metric is None else {"metric": perm.METRICS[metric][0]()}))
    return SplitScoreMethod() if kind == "split" else ConditionalMinimalDepthMethod()


class Built:
    """A realised spec: .obj is a new unfitted method, fit() fits it (or another object of the same class)."""

    def __init__(self, spec):
        self.spec, self.kind = spec, spec["kind"]
        self.rs = self.metric = None
        if self.kind in PD_KINDS:
            self.s = pdcases.Setup(spec["case"])
            self.rs = spec["case"].get("rs")
        elif self.kind == "sejong":
            self.s = perm.PermSetup(spec["case"])
            self.rs, self.metric = spec["case"]["rs"], spec["case"]["metric"]
        elif self.kind == "split":
            self.arg, self.booster = trees.build_gb(spec["spec"])
        else:
            self.arg = trees.build_forest(spec["spec"])
        self.obj = new(self.kind, self.rs, self.metric)

    def fit(self, obj=None, **kw):
        obj = self.obj if obj is None else obj
        sp = self.spec
        if self.kind in PD_KINDS:
            obj.fit(self.s.model, self.s.data.X, **{**self.s.fit_kw, **self.s.feat_kw(), **kw})
        elif self.kind == "sejong":
            args = dict(self.s.kw)
            if sp["case"].get("n") is not None:
                args["n"] = sp["case"]["n"]
            obj.fit(self.s.model, self.s.data.X, self.s.y, n_repeat=sp["case"]["reps"], **args, **kw)
        elif self.kind == "split":
            obj.fit(self.arg, **{**dict(interaction_selected_metric=sp["inter"], importance_selected_metric=sp["imp"],
                                        only_def_interactions=sp["only"]), **kw})
        else:
            obj.fit(self.arg, **kw)
        return obj

    @property
    def ascending(self):
        """smaller means stronger"""
        return self.kind == "cmd" or (self.kind == "split" and self.spec["inter"] == "mean_depth")

    @property
    def importance_ascending(self):
        return self.kind == "cmd" or (self.kind == "split" and self.spec["imp"] in ("mean_depth", "mean_weighted_depth"))


def table(m, kind):
    """rows (feature 1, feature 2, value) of the one-versus-one table, missing values dropped"""
    cols = ["root_variable", "variable"] if kind == "cmd" else ["Feature 1", "Feature 2"]
    out = []
    for a, b, v in oracle.rows(m.ovo, cols + [m.method], "ovo"):
        if v is None or math.isnan(float(v)):
            continue
        out.append((a, b, float(v)))
    return out


def directed(m, kind):
    """{(a, b): value}; model-agnostic pairs in both directions"""
    out = {}
    for a, b, v in table(m, kind):
        require((a, b) not in out, f"ovo lists ({a}, {b}) twice")
        out[(a, b)] = v
    if kind not in ("split", "cmd"):
        out.update({(b, a): v for (a, b), v in list(out.items())})
    return out


def lookup(m, kind, ascending):
    """{frozenset: value} that interaction_value reports by C24; same-feature entries under singletons"""
    d = {}
    for a, b, v in table(m, kind):
        d.setdefault(frozenset((a, b)), []).append(v)
    if kind == "cmd":
        return {k: math.fsum(v) / len(v) for k, v in d.items()}
    return {k: (min(v) if ascending else max(v)) for k, v in d.items()}


def importance(m):
    """{feature: value or None}"""
    out = {}
    for f, v in oracle.rows(m.feature_importance, ["Feature", "Importance"], "importance"):
        require(f not in out, f"importance lists {f} twice")
        out[f] = None if v is None or math.isnan(float(v)) else float(v)
    return out


def snapshot(m):
    """copies of all public result tables and lists of a method"""
    out = {}
    for name in ("ovo", "ova", "feature_importance", "full_ovo", "full_result", "X_sampled"):
        v = getattr(m, name, None)
        out[name] = None if v is None else v.copy(deep=True)
    for name in ("features_included", "pairs"):
        v = getattr(m, name, None)
        out[name] = None if v is None else [x if isinstance(x, str) else tuple(x) for x in v]
    y = getattr(m, "y_sampled", None)
    out["y_sampled"] = None if y is None else np.ravel(y).tolist()
    return out


def same(a, b):
    """name of the first result that differs between two snapshots, or None"""
    for k in a:
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return k
        if x is None:
            continue
        ok = oracle.frames_equal(x, y) if hasattr(x, "columns") else x == y
        if not ok:
            return k
    return None


# ---------------------------------------------------------------- strategies

@st.composite
def specs(draw, kinds=KINDS, names=None, max_cols=4, lo=2, small=False, trained=True, sample=True, max_order=3, dense=False):
    """names: pool the feature names come from; dense: many pairs with different values"""
    kind = draw(st.sampled_from(list(kinds)))
    if kind in PD_KINDS:
        if dense:
            case = draw(pdcases.rich(min_cols=lo, max_cols=max_cols, big=(6, 4), names=names, min_feat=lo, offsets=(0.0, 1.0), kinds="ffgifs",
                                     min_rows=4))
            case["model"]["terms"] = gen.full_terms(len(case["data"]["cols"]), draw(st.integers(0, 10 ** 6)))
        elif draw(st.integers(0, 2)) == 0 and not small:
            case = draw(pdcases.fit_cases(min_cols=lo, max_cols=max_cols, max_rows=5, names=names, min_feat=lo, max_order=max_order))
        else:
            case = draw(pdcases.rich(min_cols=lo, max_cols=max_cols, big=(6, 3), names=names, min_feat=lo, max_order=max_order))
        if not sample:
            case["n"] = None
        return dict(kind=kind, case=case)
    if kind == "sejong":
        case = draw(perm.perm_cases(max_rows=5, min_cols=lo, max_cols=max_cols, min_rows=2, dense=True, names=names, min_size=lo))
        case["reps"] = draw(st.integers(1, 2))
        return dict(kind=kind, case=case)
    if kind == "split":
        pool = names or SAFE_NAMES
        nm = draw(trees.tree_names(lo, max_cols, pool))
        gb = [trees.grown_specs(names=nm)] + ([] if dense else [trees.synth_specs(names=nm), trees.grown_specs(names=nm, max_trees=2, max_depth=3)])
        if trained:
            gb.append(trees.trained_specs(names=nm, max_rounds=3))
        c = draw(gbref.requests(st.one_of(gb)))
        c.pop("progress")
        return dict(c, kind=kind)
    nm = draw(trees.tree_names(lo, max_cols, names)) if names is not None else None
    fs = [trees.grown_forest_specs(names=nm, lo=lo, hi=max_cols)]
    if not dense:
        fs += [trees.forest_specs(names=nm, max_trees=3, lo=lo, hi=max_cols, max_rows=30), trees.synth_forest_specs(names=nm, lo=lo, hi=max_cols)]
    return dict(kind=kind, spec=draw(st.one_of(fs)))
