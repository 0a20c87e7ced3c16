"""C01: partial dependence calculator values are exact, under any sequence of requests and injected failures."""
import random

import numpy as np
from hypothesis import strategies as st

from artemis._utilities.pd_calculator import PartialDependenceCalculator
from lib import gen, oracle
from lib.gen import Data
from lib.harness import Sub, Violation
from lib.oracle import require

RULE = ("random small data sets (float/int/bool/text/constant columns, repeated values, any index), models given as sums of "
        "products of transformed columns, random sequences of 1-6 calculate requests with random batch sizes, optionally a "
        "prediction failing at a random call; after every request all stored values and lookups are compared with brute-force "
        "means. Non-trivial: at least two requests, or a repeated value in the data, and the model is not constant.")
ASSUMPTIONS = ["predictions are one-dimensional numpy arrays without missing values", "column names are strings"]


@st.composite
def cases(draw, kinds=gen.ALL_KINDS, big=None, max_cols=4, **kw):
    data = draw(gen.data_specs(min_cols=2, max_cols=max_cols, max_rows=6, kinds=kinds, big=big, **kw))
    names = gen.names_of(data)
    model = draw(gen.model_specs(len(names)))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["single", "pairs", "pairs_obs", "minus"]))
        arg = None
        if draw(st.integers(0, 3)) > 0:
            if op in ("single", "minus"):
                arg = draw(st.permutations(names))[:draw(st.integers(1, len(names)))]
            else:
                arg = [list(draw(st.permutations(names))[:2]) for _ in range(draw(st.integers(1, 3)))]
        ops.append([op, arg])
    return dict(data=data, model=model, ops=ops, batch=draw(st.sampled_from(gen.BATCHES)),
                fail_at=draw(st.one_of(st.none(), st.none(), st.integers(1, 6))),
                progress=draw(st.booleans()))


def check(case, ctx):
    data = Data(case["data"])
    model, pf = gen.build_model(case["model"], data, fail_at=case["fail_at"])
    calc = PartialDependenceCalculator(model, data.X, pf, **gen.batch_kw(case["batch"]))
    ref = oracle.PD(case["model"], data.E)
    names = data.names
    col = {n: j for j, n in enumerate(names)}
    vals = {n: list(data.X[n].values) for n in names}
    todo_single, todo_minus, todo_pairs = set(), set(), {}       # requested so far
    keys = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    for op, arg in case["ops"]:
        def request():
            kw = {"show_progress": True} if case["progress"] else {}
            if op == "single":
                calc.calculate_pd_single(arg, **kw)
            elif op == "minus":
                calc.calculate_pd_minus_single(arg, **kw)
            elif op == "pairs":
                calc.calculate_pd_pairs(None if arg is None else [tuple(p) for p in arg], **kw)
            else:
                calc.calculate_pd_pairs(None if arg is None else [tuple(p) for p in arg], all_combinations=False, **kw)
        try:
            request()
        except gen.InjectedFailure:
            ctx.event("failed and repeated")
            verify(calc, ref, data, col, vals, todo_single, todo_minus, todo_pairs, "after a failed request", partial=True)
            request()
        if op == "single":
            todo_single |= set(names if arg is None else arg)
        elif op == "minus":
            todo_minus |= set(names if arg is None else arg)
        else:
            for p in (keys if arg is None else arg):
                cells = todo_pairs.setdefault(frozenset(p), set())
                a, b = sorted(p, key=names.index)
                if op == "pairs":
                    cells |= {(x, y) for x in vals[a] for y in vals[b]}
                else:
                    cells |= set(zip(vals[a], vals[b]))
        verify(calc, ref, data, col, vals, todo_single, todo_minus, todo_pairs, f"after {op} {arg}")
    repeated = any(len(set(v)) < len(v) for v in vals.values())
    ctx.nontrivial((len(case["ops"]) > 1 or repeated) and len(case["model"]["terms"]) > 0)
    ctx.event(f"batchsize {case['batch']}")
    ctx.event(f"model {case['model']['kind']}")


def tall_check(case, ctx):
    # all-but-one profiles of thousands of rows are beyond a check's means
    check(dict(case, ops=[o for o in case["ops"] if o[0] != "minus"] or [["single", None]]), ctx)


def verify(calc, ref, data, col, vals, singles, minus, pairs, when, partial=False):
    """partial: entries that were not requested successfully may hold a value, but never a wrong one"""
    names = data.names
    enc = {n: dict(zip(vals[n], data.E[:, col[n]].tolist())) for n in names}

    def same(got, want, requested, what):
        tol = 1e-9 * ref.scale
        if requested:
            require(oracle.close(got, want, tol), f"{when}: {what} is {got}, mean prediction is {want}")
        elif np.isnan(got):
            return
        else:
            require(partial and oracle.close(got, want, tol), f"{when}: {what} was never requested but holds {got}"
                    + (f" (mean prediction {want})" if partial else ""))

    for n in names:
        u = sorted(set(vals[n]))
        got = calc.get_pd_single(n)
        require(len(got) == len(u), f"{when}: {len(got)} values for {n}, {len(u)} observed")
        wants = [ref.fixed({col[n]: enc[n][v]}) for v in u]
        for g, w, v in zip(got, wants, u):
            same(g, w, n in singles, f"partial dependence of {n} at {v!r}")
        if n in singles:
            look = vals[n][::-1] + vals[n][1::2]
            for g, v in zip(calc.get_pd_single(n, feature_values=look), look):
                same(g, ref.fixed({col[n]: enc[n][v]}), True, f"lookup of {n}={v!r}")
        gm = calc.get_pd_minus_single(n)
        require(len(gm) == data.n, f"{when}: {len(gm)} all-but-one values for {n}, {data.n} rows")
        if n in minus or partial:
            wm = ref.minus_rows(col[n])
            for i in range(data.n):
                same(gm[i], wm[i], n in minus, f"all-but-{n} value of row {i}")
        else:
            require(np.isnan(gm).all(), f"{when}: all-but-{n} values were never requested but exist")
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            ua, ub = sorted(set(vals[a])), sorted(set(vals[b]))
            grid = calc.get_pd_pairs(a, b)
            require(np.shape(grid) == (len(ua), len(ub)), f"{when}: grid of {a},{b} has shape {np.shape(grid)}")
            want_cells = pairs.get(frozenset((a, b)), set())
            look, wants = [], []
            for p, x in enumerate(ua):
                for q, y in enumerate(ub):
                    req = (x, y) in want_cells
                    if not req and np.isnan(grid[p, q]):
                        continue
                    w = ref.fixed({col[a]: enc[a][x], col[b]: enc[b][y]})
                    same(grid[p, q], w, req, f"joint partial dependence of {a}={x!r},{b}={y!r}")
                    if req:
                        look.append((x, y))
                        wants.append(w)
            if look:
                mix = list(range(len(look)))
                random.Random(f"{len(look)} {when}").shuffle(mix)
                mix += mix[:2]
                look, wants = [look[k] for k in mix], [wants[k] for k in mix]
                for g, w, v in zip(calc.get_pd_pairs(a, b, feature_values=look), wants, look):
                    same(g, w, True, f"lookup of {a},{b} at {v}")
                back = [(y, x) for x, y in look]
                for g, w, v in zip(calc.get_pd_pairs(b, a, feature_values=back), wants, back):
                    same(g, w, True, f"lookup of {b},{a} at {v}")


SUBTESTS = [
    Sub("history", cases(), check, 4500, 60000),
    Sub("many_values", cases(big=(60, 70), kinds="uuuufsn", max_cols=2, dense=True, min_lev=25, min_rows=25), check, 40, 800),
    Sub("tall", cases(big=(3000, 5), kinds="ffibsk", max_cols=3, dense=True, min_rows=900), tall_check, 16, 300),
    Sub("larger", cases(big=(25, 8)), check, 300, 5000),
]
