"""Histories of method calls with a fixed random_state, and their digests (used by C12, also as a script in a fresh process)."""
import hashlib
import json
import random
import sys

import numpy as np
from hypothesis import strategies as st

from artemis._utilities.performance_metrics import RMSE, Accuracy
from artemis.additivity import AdditivityMeter
from artemis.importance_methods.model_agnostic import PermutationImportance
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from lib import gen, perm

METHODS = ["h", "greenwell", "sejong", "sejong_acc", "additivity", "perm"]
SEEDS = [0, 1, 7, 42, 2 ** 31 - 1]


@st.composite
def datasets(draw, cls):
    data = draw(gen.data_specs(min_cols=2, max_cols=3, min_rows=2, max_rows=7, kinds="ffibsk", dense=True, big=(7, 5)))
    model = draw(gen.model_specs(len(data["cols"]), kinds=["cls"] if cls else ["reg"], offsets=(0.0,), min_terms=2, first_order=2))
    y = draw(st.lists(st.integers(0, 1) if cls else st.integers(-3, 3), min_size=data["rows"], max_size=data["rows"]))
    return dict(data=data, model=model, y=y, yc=draw(st.sampled_from(perm.Y_CONTAINERS)))


@st.composite
def histories(draw, max_calls=3):
    method = draw(st.sampled_from(METHODS + ["sejong"]))
    pool = [draw(datasets(method == "sejong_acc")) for _ in range(draw(st.integers(1, 2)))]
    calls = []
    for _ in range(draw(st.integers(1, max_calls))):
        d = draw(st.integers(0, len(pool) - 1))
        rows = pool[d]["data"]["rows"]
        calls.append(dict(d=d, n=draw(st.one_of(st.integers(1, rows), st.none())), reps=draw(st.integers(1, 3)),
                          features=draw(gen.feature_lists(gen.names_of(pool[d]["data"])))))
    return dict(method=method, pool=pool, calls=calls, rs=draw(st.sampled_from(SEEDS)), np=draw(st.sampled_from([None, None, "int64", "uint32"])))


def create(case, rs=None):
    rs = case["rs"] if rs is None else rs
    if case.get("np"):                 # seeds are often drawn with numpy
        rs = getattr(np, case["np"])(rs)
    return {"h": lambda: FriedmanHStatisticMethod(random_state=rs), "greenwell": lambda: GreenwellMethod(random_state=rs),
            "sejong": lambda: SejongOhMethod(random_state=rs), "sejong_acc": lambda: SejongOhMethod(Accuracy(), random_state=rs),
            "additivity": lambda: AdditivityMeter(random_state=rs), "perm": lambda: PermutationImportance(RMSE(), random_state=rs),
            }[case["method"]]()


def realise(case):
    out = []
    for p in case["pool"]:
        data = gen.Data(p["data"])
        out.append((gen.build_model(p["model"], data)[0], data.X, perm.make_y(p["y"], p["yc"], data.X)))
    return out


def call(case, m, real, c):
    """one call of the history; -> everything it produced, JSON-able, numbers exact"""
    model, X, y = real[c["d"]]
    kw = {}
    if c["n"] is not None and case["method"] != "perm":
        kw["n"] = c["n"]
    if c["features"] is not None and case["method"] != "additivity":
        kw["features"] = list(c["features"])
    if case["method"] == "perm":
        m.importance(model, X, y, n_repeat=c["reps"], **kw)
        return [frame(m.feature_importance)]
    if case["method"].startswith("sejong"):
        m.fit(model, X, y, n_repeat=c["reps"], **kw)
        return [frame(m.X_sampled), [cell(v) for v in m.y_sampled], frame(m.ovo), frame(m.feature_importance)]
    if case["method"] == "additivity":
        return [cell(m.fit(model, X, **kw)), frame(m.X_sampled), frame(m.full_result)]
    m.fit(model, X, **kw)
    return [frame(m.X_sampled), frame(m.ovo), frame(m.feature_importance)] + ([frame(m.ova)] if case["method"] == "h" else [])


def cell(v):
    return v if isinstance(v, str) else float(v).hex()


def frame(df):
    return [list(map(str, df.columns)), [str(i) for i in df.index], [[cell(v) for v in df[c]] for c in df.columns]]


def whole(case):
    real, m = realise(case), create(case)
    return [call(case, m, real, c) for c in case["calls"]]


def digest(case):
    return hashlib.sha256(json.dumps(whole(case), sort_keys=True).encode()).hexdigest()


if __name__ == "__main__":
    import os
    cases = json.load(sys.stdin)
    random.seed(int(os.environ["REPRO_NOISE"]))
    np.random.seed(int(os.environ["REPRO_NOISE"]))
    import warnings
    warnings.simplefilter("ignore")
    order = list(range(len(cases)))
    if os.environ.get("REPRO_REVERSED"):
        order.reverse()
    out = {i: digest(cases[i]) for i in order}
    sys.stdout.write("\nDIGESTS" + json.dumps([out[i] for i in range(len(cases))]))
