"""C10: performance metrics."""
import math
from fractions import Fraction

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from artemis._utilities.domain import ProblemType
from artemis._utilities.performance_metrics import MSE, RMSE, Accuracy
from lib.harness import Sub
from lib.oracle import close, require

RULE = ("pairs of target/prediction vectors (floats, integers, labels, booleans, text labels) as arrays, lists or series with any "
        "index; MSE/RMSE compared with exact rational arithmetic, accuracy with counting. Non-trivial: targets and predictions "
        "differ somewhere and agree somewhere, or are numeric and differ.")

num = st.one_of(st.integers(-50, 50), st.floats(-1e3, 1e3, allow_nan=False, width=32))
lab = st.one_of(st.integers(0, 3), st.sampled_from(["a", "b", "ab"]), st.booleans())


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["num", "int", "label", "text"]))
    n = draw(st.integers(1, 12))
    el = {"num": num, "int": st.integers(-5, 5), "label": st.integers(0, 2), "text": st.sampled_from(["a", "b", "ab"])}[kind]
    return dict(kind=kind, y=draw(st.lists(el, min_size=n, max_size=n)), p=draw(st.lists(el, min_size=n, max_size=n)),
                yc=draw(st.sampled_from(["array", "list", "series", "shifted", "column"])), metric=draw(st.sampled_from(["mse", "rmse", "acc"])),
                pc=draw(st.sampled_from(["array", "array", "series", "shifted", "column"])),
                dtype=draw(st.sampled_from(["plain", "float", "uint8", "int8", "float32", "bool"])))


def wrap(v, container, dtype=None):
    if container == "array":
        return np.array(v, dtype=dtype)
    if container == "column":
        return np.array(v, dtype=dtype).reshape(-1, 1)
    if container == "list":
        return list(v)
    return pd.Series(np.array(v, dtype=dtype), index=range(5, 5 + len(v)) if container == "shifted" else None)


def check(case, ctx):
    y, p = case["y"], case["p"]
    pc, dtype = case.get("pc", "array"), case["dtype"] if case["dtype"] in ("uint8", "int8", "float32", "bool") else None
    if dtype and case["kind"] != "text":             # both sides hold the values in the (small) type
        y, p = ([int(v) % 256 if dtype == "uint8" else int(v) % 256 - 128 if dtype == "int8" else v > 0 if dtype == "bool" else
                 float(np.float32(v)) for v in vs] for vs in (y, p))
    elif dtype:
        dtype = None
    if case["metric"] == "acc":
        got = Accuracy().calculate(wrap(y, case["yc"], dtype), wrap(p, pc, dtype))
        want = sum(a == b for a, b in zip(y, p)) / len(y)
        require(close(got, want, 1e-12), f"accuracy is {got}, {want} of the labels agree")
        ctx.nontrivial(0 < want < 1)
    else:
        if case["kind"] == "text":
            return
        p_arr = wrap(p, pc, dtype or (float if case["dtype"] == "float" or case["kind"] == "num" else None))
        got = (MSE if case["metric"] == "mse" else RMSE)().calculate(wrap(y, case["yc"], dtype), p_arr)
        want = float(sum((Fraction(a) - Fraction(b)) ** 2 for a, b in zip(y, p)) / len(y))
        if case["metric"] == "rmse":
            want = math.sqrt(want)
        require(close(got, want, 1e-9 * max(1.0, want)), f"{case['metric']} is {got}, definition gives {want}")
        ctx.nontrivial(want > 0)
    ctx.event(case["metric"] + " " + case["yc"])
    ctx.event(f"predictions {pc} {dtype or 'plain'}")
    for cls, reg in ((MSE, True), (RMSE, True), (Accuracy, False)):
        for text, is_reg in (("regression", True), ("classification", False), (ProblemType.REGRESSION, True),
                             (ProblemType.CLASSIFICATION, False)):
            require(bool(cls().applicable_to(text)) == (reg == is_reg), f"{cls.__name__} applicable to {text}: "
                    f"{cls().applicable_to(text)}")


SUBTESTS = [Sub("metrics", cases(), check, 8000, 200000)]
