"""C07: no interaction or importance where the model has none; positive where there must be one."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from lib import gen, oracle, pdcases, perm
from lib.harness import Sub
from lib.oracle import require

RULE = ("models with explicit additive and joint terms over random data; pairs without joint term, additive features and ignored "
        "features must score 0 in every method, and pure products on full grids must score above 0. Non-trivial: the model uses "
        "some feature and at least one pair or feature has to be 0 (first part), or any case of the second part.")
ASSUMPTIONS = ["normalised H values are compared where the denominator is above rounding level"]


@st.composite
def pd_cases(draw, **kw):
    case = draw(pdcases.fit_cases(model_kinds=("reg", "pf"), **kw))
    case["via"] = draw(st.sampled_from(["h", "hu", "greenwell", "imp"]))
    return case


def check_pd(case, ctx):
    s = pdcases.Setup(case)
    joint = {frozenset((s.names[a], s.names[b])) for a, b in gen.joint_pairs(case["model"])}
    used = {s.names[c] for c in gen.used_columns(case["model"])}
    interacting = {f for p in joint for f in p}
    via = case["via"]
    if via in ("h", "hu"):
        m = s.h(normalized=via == "h")
    elif via == "greenwell":
        m = s.greenwell()
    else:
        m = s.importance()
    ref = s.ref(m.X_sampled)
    tol = 1e-8 * ref.scale
    for j in range(len(s.names)):
        ref.grid(j)             # scale over all single profiles
    zero = 0
    for f, v in oracle.feature_table(m.feature_importance, "Importance", "importance").items():
        if f not in used:
            require(oracle.close(v, 0, tol), f"importance {v} of {f}, which the model ignores")
            zero += 1
    if via != "imp":
        for pair, v in oracle.pair_table(m).items():
            if pair in joint:
                continue
            a, b = sorted(pair)
            zero += 1
            if via == "h":
                if not (pair & used):
                    require(v == 0, f"H {v} of {a},{b}, both ignored by the model")
                elif ref.den_ok(ref.h_pair(s.col(a), s.col(b))[1]):
                    require(oracle.close(v, 0, 1e-7), f"H {v} of {a},{b} without joint term")
            else:
                ref.h_pair(s.col(a), s.col(b))
                require(oracle.close(v, 0, 1e-8 * ref.scale), f"{via} value {v} of {a},{b} without joint term")
    if via in ("h", "hu"):
        for f, v in oracle.feature_table(m.ova, m.method, "ova").items():
            if f in interacting:
                continue
            zero += 1
            if via == "h":
                if not used:
                    require(v == 0, f"one-versus-all {v} of {f} for a constant model")
                elif ref.den_ok(ref.h_all(s.col(f))[1]):
                    require(oracle.close(v, 0, 1e-7), f"one-versus-all {v} of additive feature {f}")
            else:
                ref.h_all(s.col(f))
                require(oracle.close(v, 0, 1e-8 * ref.scale), f"one-versus-all {v} of additive feature {f}")
    ctx.nontrivial(zero > 0 and bool(used))
    ctx.event(via)


@st.composite
def perm_cases(draw):
    case = draw(perm.perm_cases(max_rows=8, max_cols=4))
    ncols = len(case["data"]["cols"])
    allowed = list(range(ncols))[:draw(st.integers(0, ncols - 1))]
    case["model"]["terms"] = [t for t in case["model"]["terms"] if all(c in allowed for c, _ in t[1])] or \
        ([[1.0, [[allowed[0], "id"]]]] if allowed else [])
    case["via"] = draw(st.sampled_from(["perm", "sejong"]))
    case["reps"] = draw(st.integers(1, 4))
    return case


def check_perm(case, ctx):
    s = perm.PermSetup(case)
    used = {s.names[c] for c in gen.used_columns(case["model"])}
    tol = 1e-9 * max(1.0, s.metric(np.array(case["y"], float), s.predict(s.data.E)))
    if case["via"] == "perm":
        m = PermutationImportance(random_state=case["rs"], **s.metric_kw)
        m.importance(s.model, s.data.X, s.y, n_repeat=case["reps"], **s.kw)
    else:
        m = SejongOhMethod(random_state=case["rs"], **s.metric_kw)
        m.fit(s.model, s.data.X, s.y, n_repeat=case["reps"], **s.kw)
        for pair, v in oracle.pair_table(m).items():
            if not (pair & used):
                require(oracle.close(v, 0, tol), f"performance based interaction {v} of ignored features {sorted(pair)}")
                ctx.nontrivial()
    for f, v in oracle.feature_table(m.feature_importance, "Importance", "importance").items():
        if f not in used:
            require(oracle.close(v, 0, tol), f"permutation importance {v} of {f}, which the model ignores")
            ctx.nontrivial(bool(used))
    ctx.event(case["via"])


@st.composite
def product_cases(draw):
    a = draw(st.lists(st.integers(-6, 6), min_size=3, max_size=5, unique=True))
    b = draw(st.lists(st.integers(-6, 6), min_size=3, max_size=5, unique=True))
    return dict(a=a, b=b, coef=draw(st.sampled_from([1.0, -2.0, 0.01, 300.0])), reps=draw(st.integers(1, 2)),
                extra=draw(st.integers(0, 2)), order=draw(st.permutations([0, 1, 2]))[:3], off=draw(st.sampled_from([0.0, 5.0])),
                batch=draw(st.sampled_from(gen.BATCHES)), flip=draw(st.booleans()))


def check_product(case, ctx):
    a = np.array(case["a"], float) - np.mean(case["a"])
    b = np.array(case["b"], float) - np.mean(case["b"])
    A, B = np.meshgrid(a, b, indexing="ij")
    X = pd.DataFrame({"u": A.ravel(), "v": B.ravel(), "w": (np.arange(A.size) * 7 % 3).astype(float)})
    X = X[[["u", "v", "w"][i] for i in case["order"]]]

    class M:
        def predict(self, D):
            return case["off"] + case["coef"] * D["u"].values * D["v"].values + case["extra"] * D["w"].values

    kw = gen.batch_kw(case["batch"])
    feats = ["v", "u"] if case["flip"] else ["u", "v"]
    for normalized in (True, False):
        h = FriedmanHStatisticMethod(normalized=normalized)
        h.fit(M(), X, features=feats, **kw)
        v = oracle.pair_table(h)[frozenset("uv")]
        require(v > 1e-6 * abs(case["coef"]) if not normalized else oracle.close(v, 1, 1e-6),
                f"H (normalized={normalized}) is {v} for a pure product")
        for f, o in oracle.feature_table(h.ova, h.method, "ova").items():
            require(o > 1e-9, f"one-versus-all value {o} of {f} in a pure product")
    g = GreenwellMethod()
    g.fit(M(), X, features=feats, **kw)
    v = oracle.pair_table(g)[frozenset("uv")]
    require(v > 1e-6 * abs(case["coef"]), f"Greenwell value is {v} for a pure product")
    ctx.nontrivial()


SUBTESTS = [
    Sub("rich", pd_cases(dense=True, big=(10, 5), min_rows=3, min_terms=1, max_cols=5), check_pd, 1500, 20000),
    Sub("structure", pd_cases(max_cols=5), check_pd, 1200, 20000),
    Sub("shuffling", perm_cases(), check_perm, 800, 10000),
    Sub("product", product_cases(), check_product, 150, 2000),
]
