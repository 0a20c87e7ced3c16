"""C15: metamorphic relations of partial dependence based results."""
import numpy as np
from hypothesis import strategies as st

from artemis.additivity import AdditivityMeter
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod
from lib import gen, oracle, pdcases
from lib.harness import Sub
from lib.oracle import require

RULE = ("random data sets and models explained twice by H-statistic (both variants, with one-versus-all), Greenwell, importance and "
        "additivity meter: as they are and after a random non-empty set of changes of presentation (batch size, progress bar, row order, "
        "column order, order of requested features, index, renaming, repetition of all rows, affine map of predictions); values compared "
        "feature by feature. Normalised values whose denominator is at rounding level are not compared. Non-trivial: some compared "
        "value is clearly positive.")
CHANGES = ["batch", "progress", "rows", "columns", "order", "index", "rename", "repeat", "affine"]
METHODS = ["h", "hu", "greenwell", "importance", "additivity"]


@st.composite
def affine(draw):
    a = draw(st.sampled_from([-1.0, 2.0, 0.5, -3.0, 100.0, 0.01, 1.0, 1e-8, -1e-5, 1e7]))
    return [a, draw(st.sampled_from([0.0, 1.0, -5.0, 50.0])) * min(1.0, abs(a) * 100)]


@st.composite
def cases(draw, methods=METHODS, always=(), **kw):
    case = draw(pdcases.fit_cases(options=False, min_rows=2, **kw))
    names = gen.names_of(case["data"])
    rows = gen.Data(case["data"]).n
    changes = draw(st.lists(st.sampled_from(CHANGES), min_size=1, max_size=3, unique=True))
    changes = sorted(set(changes) | set(always))
    ch = {}
    for c in changes:
        ch[c] = {"batch": lambda: draw(st.integers(1, 60)), "progress": lambda: True,
                 "rows": lambda: list(draw(st.permutations(range(rows)))), "columns": lambda: list(draw(st.permutations(names))),
                 "order": lambda: True, "index": lambda: draw(st.sampled_from(gen.INDEX_KINDS)),
                 "rename": lambda: list(draw(st.permutations([n for n in gen.NAMES + ["zz", "aa", "M"]])))[:len(names)],
                 "repeat": lambda: [draw(st.integers(2, 3)), draw(st.booleans())],
                 "affine": lambda: draw(affine())}[c]()
    low = 1 if (m := draw(st.sampled_from(methods))) == "importance" else 2
    case.update(changes=ch, method=m, features=None if m == "additivity" else draw(gen.feature_lists(names, min_size=low)))
    if "order" in ch and m != "additivity":
        case["order"] = list(draw(st.permutations(case["features"] or names)))
    return case


def explain(kind, model, pf, X, features, kw):
    kw = dict(kw)
    if pf is not None:
        kw["predict_function"] = pf
    if kind == "additivity":
        m = AdditivityMeter()
        return {"index": {(): m.fit(model, X, **kw)}}
    if features is not None:
        kw["features"] = list(features)
    if kind == "importance":
        m = PartialDependenceBasedImportance()
        m.importance(model, X, **kw)
        return {"importance": oracle.feature_table(m.feature_importance, "Importance", "importance")}
    m = GreenwellMethod() if kind == "greenwell" else FriedmanHStatisticMethod(normalized=kind == "h")
    m.fit(model, X, **kw)
    out = {"importance": oracle.feature_table(m.feature_importance, "Importance", "importance"), "ovo": oracle.pair_table(m)}
    if kind != "greenwell":
        out["ova"] = oracle.feature_table(m.ova, m.method, "ova")
    return out


def check(case, ctx):
    data = gen.Data(case["data"])
    kind, ch = case["method"], case["changes"]
    model, pf = gen.build_model(case["model"], data)
    base = explain(kind, model, pf, data.X, case["features"], {})
    # the same thing presented differently
    X = data.X
    ren = dict(zip(data.names, ch["rename"])) if "rename" in ch else {n: n for n in data.names}
    if "rows" in ch:
        X = X.iloc[ch["rows"]]
    if "repeat" in ch:
        k, block = ch["repeat"]
        pos = list(range(len(X))) * k if block else [i for i in range(len(X)) for _ in range(k)]
        X = X.iloc[pos]
    if "columns" in ch:
        X = X[ch["columns"]]
    X = X.rename(columns=ren)
    if "index" in ch:
        X = X.copy()
        X.index = gen.make_index(ch["index"], len(X))
    view = type("View", (), dict(names=[ren[n] for n in data.names], kinds={ren[n]: k for n, k in data.kinds.items()}))()
    model2, pf2 = gen.build_model(case["model"], view)
    a, b = 1.0, 0.0
    if "affine" in ch:
        a, b = ch["affine"]
        inner = pf2 or ((lambda m, Q: m.predict_proba(Q)[:, 1]) if hasattr(model2, "predict_proba") else (lambda m, Q: m.predict(Q)))
        pf2 = lambda m, Q: a * np.asarray(inner(m, Q)) + b
    kw = {}
    if "batch" in ch:
        kw["batchsize"] = ch["batch"]
    if "progress" in ch:
        kw["show_progress"] = True
    features = case.get("order", case["features"])
    other = explain(kind, model2, pf2, X, None if features is None else [ren[f] for f in features], kw)
    ref = oracle.PD(case["model"], data.E)
    wide = ref.scale * abs(a) + abs(b) + 1e-12       # magnitude of predictions in the second presentation
    col = data.names.index
    used = gen.used_columns(case["model"])
    for t in base:
        back = lambda k: frozenset(ren[x] for x in k) if isinstance(k, frozenset) else ren.get(k, k)
        require(set(other[t]) == {back(k) for k in base[t]}, f"{t} lists {list(other[t])} after {sorted(ch)}")
        for k, v in base[t].items():
            w = other[t][back(k)]
            name = "-".join(sorted(k)) if isinstance(k, frozenset) else str(k)
            what = f"{kind} {t} of {name} is {v} and after {sorted(ch)} {w}"
            if t == "index" or (kind == "h" and t in ("ovo", "ova")):
                if t == "index":
                    num, den = ref.additivity()
                else:
                    num, den = ref.h_pair(*map(col, k)) if t == "ovo" else ref.h_all(col(k))
                    if not (used & set(map(col, k if t == "ovo" else [k]))) and t == "ovo":
                        require(v == 0 and w == 0, what + ", the model ignores the features")
                        continue
                if not (ref.den_ok(den) and a * a * den > 1e-10 * ref.n * wide ** 2):
                    ctx.event("denominator at rounding level, not compared")
                    continue
                require(oracle.close(v, w, 1e-6 * max(1.0, num / den)), what)
                ctx.nontrivial(num / den > 1e-6)
            else:
                require(oracle.close(w, abs(a) * v, 1e-8 * wide), what + f", expected {abs(a) * v}")
                ctx.nontrivial(v > 1e-6 * ref.scale)
    for c in ch:
        ctx.event(c)
    ctx.event(kind)


SUBTESTS = [
    Sub("rich", cases(dense=True, big=(8, 4), min_terms=2, first_order=2, kinds="fffgiinlbskjh"), check, 1200, 20000),
    Sub("relations", cases(max_rows=6), check, 1000, 20000),
    Sub("affine", cases(methods=["greenwell", "greenwell", "importance"], always=("affine",), dense=True, big=(8, 4), min_terms=2, first_order=2,
                        kinds="fskskt", max_cols=3), check, 500, 8000),
]
