"""C22: a refitted object reports only its last fit."""
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt

from artemis._utilities._handler import GBTreesHandler
from artemis.additivity import AdditivityMeter
from artemis.comparison import FeatureInteractionMethodComparator
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
from artemis.importance_methods.model_specific import SplitScoreImportance
from lib import figs, fitted, gbref, gen, oracle, pdcases, perm, trees
from lib.gen import SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("sequences of two to four fits of one object (all methods, importance classes, additivity meter, comparator) with different "
        "models, data, features, metrics and options, data frames or models changed in place between fits, fits that fail because the "
        "model raises, and plots and lookups in between; afterwards every public result is compared with those of a new object fitted "
        "once (for shuffling based methods: with the enumerated outcomes of the last fit). Non-trivial: the results of the last fit "
        "differ from those of an earlier fit.")
ATTRS = ["ovo", "ova", "feature_importance", "full_ovo", "full_result", "X_sampled"]
LISTS = ["features_included", "pairs"]


def results(o):
    out = {k: getattr(o, k) for k in ATTRS if hasattr(o, k)}
    for k in LISTS:
        if getattr(o, k, None) is not None:
            out[k] = [x if isinstance(x, str) else tuple(x) for x in getattr(o, k)]
    return out


def compare(old, new, skip=()):
    a, b = results(old), results(new)
    for k in sorted(set(a) | set(b)):
        if k in skip:
            continue
        x, y = a.get(k), b.get(k)
        if k in LISTS:
            require(x == y, f"{k} is {x} after refitting, {y} for a new object")
        else:
            scale = 1.0
            require(oracle.tables_close(x, y, 1e-9 * scale), f"{k} after refitting differs from that of a new object:\n{x}\n{y}")


# ---------------------------------------------------------------- partial dependence based

def apply_pd(kind, obj, s, ova):
    kw = {**s.fit_kw, **s.feat_kw()}
    if kind == "additivity":
        kw.pop("features", None)
        obj.fit(s.model, s.data.X, **kw)
    elif kind == "importance":
        obj.importance(s.model, s.data.X, **kw)
    elif kind == "greenwell":
        obj.fit(s.model, s.data.X, **kw)
    else:
        obj.fit(s.model, s.data.X, calculate_ova=ova, **kw)


def new_pd(kind, rs=None):
    if kind == "additivity":
        return AdditivityMeter(random_state=rs)
    if kind == "importance":
        return PartialDependenceBasedImportance()
    return fitted.new(kind, rs)


def change(s, step):
    """the same data frame or model object, changed in place"""
    if step["how"] in ("data", "both"):
        c = s.names[step["col"] % len(s.names)]
        s.data.X[c] = s.data.X[c].values[::-1].copy() if step["col"] % 2 else np.roll(s.data.X[c].values, 1)
    if step["how"] in ("model", "both"):
        spec = gen.counter(s.model).spec
        spec["off"] = spec["off"] + 1
        spec["terms"] = [[-2 * k, f] for k, f in spec["terms"]][::-1] + [[1.5, [[step["col"] % len(s.names), "sq"]]]]


def use(kind, obj, op, s):
    """something a user may do between two fits"""
    if kind in ("additivity", "importance"):
        return
    f = s.requested
    if op == "lookup":
        obj.interaction_value(f[0], f[1])
    elif op == "plot":
        obj.plot("bar_chart")
    elif op == "profile":
        obj.plot_profile(f[0])
    elif op == "compare":
        FeatureInteractionMethodComparator().correlations(obj, obj)
    plt.close("all")


def check_pd(case, ctx):
    kind = case["kind"]
    obj = new_pd(kind, case["rs"])
    s, earlier = None, []
    steps = case["steps"]
    for i, step in enumerate(steps):
        last = i == len(steps) - 1
        if step["how"] == "new" or s is None:
            s = pdcases.Setup(step["case"])
        else:
            change(s, step)
            s.features = None if step["features"] is None else [f for f in s.names if (step["features"] >> s.names.index(f)) & 1]
            if s.features is not None and len(s.features) < 2:
                s.features = None
            s.requested = s.features or s.names
        if step["fail"] and not last:
            c = gen.counter(s.model)
            c.fail_at = c.calls + step["fail"]
            try:
                apply_pd(kind, obj, s, step["ova"])
            except gen.InjectedFailure:
                ctx.event("failed fit")
                c.fail_at = None
                continue
            c.fail_at = None
        else:
            apply_pd(kind, obj, s, step["ova"])
        if not last:
            earlier.append({k: (v.copy() if hasattr(v, "copy") else v) for k, v in results(obj).items()})
            if kind == "additivity":
                earlier[-1]["ai"] = obj.additivity_index
            use(kind, obj, step["op"], s)
    fresh = new_pd(kind)
    if s.fit_kw.get("n") is not None:       # a new object would draw another sample: explain the reported one
        require(len(obj.X_sampled) == s.fit_kw["n"], f"{len(obj.X_sampled)} rows explained, {s.fit_kw['n']} requested")
        s.fit_kw.pop("n")
        s.data.X = obj.X_sampled
        ctx.event("sampled")
    apply_pd(kind, fresh, s, step["ova"])
    compare(obj, fresh)
    if kind == "additivity":
        a, b = obj.additivity_index, fresh.additivity_index
        require(oracle.close(a, b, 1e-9 * max(1, abs(b))) or (np.isinf(b) and np.isinf(a)), f"additivity index {a}, {b} for a new object")
        require(np.allclose(obj.preds, fresh.preds, rtol=1e-12, atol=0), "predictions differ from those of a new object")
    else:
        values = [fresh.interaction_value(*p) for p in fresh.pairs] if kind != "importance" else []
        for p, v in zip(fresh.pairs if kind != "importance" else [], values):
            require(oracle.close(obj.interaction_value(*p), v, 1e-9 * max(1, abs(v))), f"interaction value of {p} differs from that of a new object")
    key = "full_result" if kind == "additivity" else "feature_importance"
    ctx.nontrivial(any(not oracle.tables_close(e[key], getattr(fresh, key), 1e-9) for e in earlier))
    ctx.event(kind)


@st.composite
def pd_steps(draw, kind):
    how = draw(st.sampled_from(["new", "new", "data", "model", "both", "features"]))
    case = draw(pdcases.rich(big=(6, 3)) if draw(st.integers(0, 3)) else pdcases.fit_cases(max_rows=5))
    return dict(how=how, case=case, col=draw(st.integers(0, 5)), ova=draw(st.booleans()), features=draw(st.sampled_from([None, None, 3, 5, 6, 7, 11])),
                fail=draw(st.sampled_from([0, 0, 0, 1, 2, 3])), op=draw(st.sampled_from(["none", "none", "lookup", "lookup", "none", "plot", "profile", "compare"])))


@st.composite
def pd_cases(draw):
    kind = draw(st.sampled_from(["h", "hu", "greenwell", "importance", "additivity"]))
    return dict(kind=kind, rs=draw(st.sampled_from([None, 5])), steps=[draw(pd_steps(kind)) for _ in range(draw(st.integers(2, 4)))])


# ---------------------------------------------------------------- shuffling based

def check_perm(case, ctx):
    steps = case["steps"]
    setups = [perm.PermSetup(dict(c, metric=case["metric"])) for c in steps]
    if case["method"] == "perm":
        obj = PermutationImportance(random_state=case["rs"], **setups[0].metric_kw)
        for s in setups:
            obj.importance(s.model, s.data.X, s.y, n_repeat=1, **s.kw)
        E, y = s.data.E, np.asarray(list(s.y), dtype=float)
    else:
        obj = fitted.new("sejong", case["rs"], case["metric"])
        for s, c in zip(setups, steps):
            kw = dict(s.kw) if c["n"] is None else dict(s.kw, n=min(c["n"], s.data.n))
            obj.fit(s.model, s.data.X, s.y, n_repeat=1, **kw)
        E, y = s.data.encode(obj.X_sampled), np.ravel(np.asarray(list(obj.y_sampled), dtype=float))
        require(len(E) == kw.get("n", s.data.n), f"{len(E)} rows explained after refitting")
        if "n" not in kw:
            require(np.array_equal(E, s.data.E) and np.array_equal(np.ravel(obj.y_sampled), np.ravel(s.y)), "explained data are not those of the last fit")
        require(list(obj.features_included) == list(s.requested), f"features {obj.features_included} after fitting {s.requested}")
        table = oracle.pair_table(obj)
        pdcases.check_pairs_complete(table, s.requested)
        require({frozenset(p) for p in obj.pairs} == set(table), f"pairs {obj.pairs} are not those of the table")
        for pair, got in table.items():
            a, b = sorted(pair)
            s1, s2, s12 = (s.scores(E, y, c) for c in ([s.col(a)], [s.col(b)], [s.col(a), s.col(b)]))
            vals = np.abs(s12[:, None, None] - s1[None, :, None] - s2[None, None, :]).ravel()
            tol = 1e-9 * max(s.scale, float(np.max(vals)))
            require(float(np.min(np.abs(vals - got))) <= tol, f"value {got} of {a},{b} is not possible for the last fit")
            ctx.nontrivial(len(perm.distinct(vals, tol)) > 1)
    imp = oracle.feature_table(obj.feature_importance, "Importance", "importance")
    require(set(imp) == set(s.requested), f"importance lists {sorted(imp)} after requesting {s.requested}")
    for f, got in imp.items():
        vals = s.sign * s.scores(E, y, [s.col(f)])
        tol = 1e-9 * max(s.scale, float(np.max(np.abs(vals))))
        require(float(np.min(np.abs(vals - got))) <= tol, f"importance {got} of {f} is not possible for the last fit: {sorted(set(vals))}")
        ctx.nontrivial(case["method"] == "perm" and len(perm.distinct(vals, tol)) > 1)
    ctx.event(case["method"])


@st.composite
def perm_cases(draw):
    metric = draw(st.sampled_from(["rmse", "mse", "max", "acc", "hits"]))
    reg = metric in ("rmse", "mse", "max")
    steps = []
    for _ in range(draw(st.integers(2, 3))):
        c = draw(perm.perm_cases(max_rows=3, dense=draw(st.booleans())).filter(lambda c: (c["metric"] in ("rmse", "mse", "max", None)) == reg))
        c["n"] = draw(st.one_of(st.none(), st.none(), st.integers(1, 3)))
        steps.append(c)
    return dict(method=draw(st.sampled_from(["perm", "sejong", "sejong"])), metric=metric, rs=draw(st.sampled_from([None, 4])), steps=steps)


# ---------------------------------------------------------------- tree based

def check_trees(case, ctx):
    kind = case["kind"]
    if kind == "split_importance":
        obj, fresh = SplitScoreImportance(), SplitScoreImportance()
        for step in case["steps"]:
            h = trees.build_gb(step["spec"])[0]
            h = h if isinstance(h, GBTreesHandler) else GBTreesHandler(h)
            kw = dict(selected_metric=step["imp"])
            if step["subset"]:
                kw["features"] = step["spec"]["names"][:2]
            obj.importance(h, **kw)
            prev = fresh.feature_importance
            fresh = SplitScoreImportance()
            fresh.importance(h, **kw)
            require(obj.importance_ascending_order == fresh.importance_ascending_order, "direction differs from that of a new object")
            compare(obj, fresh)
            ctx.nontrivial(prev is not None and not oracle.tables_close(prev, fresh.feature_importance, 1e-9))
        ctx.event(kind)
        return
    builts = [fitted.Built(s) for s in case["steps"]]
    obj = fitted.new(kind)
    prev = None
    for i, b in enumerate(builts):
        b.fit(obj)
        fresh = b.fit()
        compare(obj, fresh)
        d = fitted.lookup(fresh, kind, b.ascending)
        for p, v in d.items():
            if len(p) == 2:
                x, y = sorted(p)
                got = obj.interaction_value(x, y)
                require(oracle.close(got, v, 1e-9 * max(1, abs(v))), f"interaction value of {x},{y} is {got} after refitting, {v} for a new object")
        if prev is not None:
            ctx.nontrivial(not oracle.tables_close(prev, fresh.ovo, 1e-9))
        prev = fresh.ovo.copy()
        if len(d) and case["op"] == "plot":
            obj.plot("bar_chart")
            compare(obj, fresh)
    ctx.event(kind)


@st.composite
def tree_cases(draw):
    kind = draw(st.sampled_from(["split", "split", "cmd", "split_importance"]))
    steps = []
    for _ in range(draw(st.integers(2, 3))):
        if kind == "split_importance":
            steps.append(draw(gbref.requests(st.one_of(trees.synth_specs(), trees.trained_specs(max_rounds=2)), subset=st.booleans())))
        elif kind == "cmd":
            steps.append(dict(kind=kind, spec=draw(st.one_of(trees.synth_forest_specs(), trees.forest_specs(max_trees=2, max_rows=20)))))
        else:
            steps.append(draw(fitted.specs(kinds=["split"])))
    return dict(kind=kind, steps=steps, op=draw(st.sampled_from(["none", "none", "none", "plot"])))


# ---------------------------------------------------------------- comparator

def read_plot(result):
    ax = figs.comparison_axes(result)
    pts = [tuple(np.round(p, 9)) for p in figs.points(ax)]
    return repr((pts, figs.correlation_box(ax), sorted(figs.annotations(ax)), ax.get_xlabel(), ax.get_ylabel(), figs.inverted(ax)))


def check_comparator(case, ctx):
    ms = [fitted.Built(s).fit() for s in case["methods"]]
    if any(len(fitted.table(m, s["kind"])) == 0 for m, s in zip(ms, case["methods"])):
        ctx.event("empty table")
        return
    comp = FeatureInteractionMethodComparator()
    texts = set()
    for i, j, op in case["steps"]:
        a, b = ms[i % len(ms)], ms[j % len(ms)]
        if op == "refit":
            k = (i + 1) % len(ms)
            fitted.Built(case["methods"][k]).fit(ms[k])
            continue
        fresh = FeatureInteractionMethodComparator()
        if op == "summary":
            comp.summary(a, b)
            fresh.summary(a, b)
            require(oracle.tables_close(comp.correlations_df, fresh.correlations_df, 1e-12), "correlations of a used comparator differ from those of a new one")
            x, y = read_plot(comp.ovo_profiles_comparison_plot), read_plot(fresh.ovo_profiles_comparison_plot)
        else:
            x = read_plot(comp.comparison_plot(a, b, add_correlation_box=True))
            y = read_plot(fresh.comparison_plot(a, b, add_correlation_box=True))
        require(x == y, f"comparison plot of a used comparator shows {x}, that of a new one {y}")
        texts.add(x)
        plt.close("all")
    ctx.nontrivial(len(texts) > 1)


@st.composite
def comp_cases(draw):
    pool = SAFE_NAMES[:3]
    methods = [draw(fitted.specs(names=pool, max_cols=3, lo=3, small=True, trained=False, sample=False)) for _ in range(draw(st.integers(2, 3)))]
    steps = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2), st.sampled_from(["summary", "summary", "plot", "refit"])), min_size=2, max_size=3))
    return dict(methods=methods, steps=[list(s) for s in steps])


SUBTESTS = [
    Sub("partial_dependence", pd_cases(), check_pd, 520, 12000),
    Sub("shuffling", perm_cases(), check_perm, 350, 9000),
    Sub("trees", tree_cases(), check_trees, 300, 7000),
    Sub("comparator", comp_cases(), check_comparator, 100, 3500),
]
