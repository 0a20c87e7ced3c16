"""C32: progress is shown only on request and changes nothing."""
import contextlib
import io
import warnings

from hypothesis import strategies as st

from artemis.additivity import AdditivityMeter
from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance, PermutationImportance
from lib import fitted, gbref, oracle, perm, trees
from lib.gen import SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("every method, importance class and the additivity meter fitted without show_progress, with False and with True in a random order on "
        "one or several objects, standard output and error captured each time, as terminals or as files. Non-trivial: the object was fitted with progress at least "
        "once before it was fitted without.")


class Terminal(io.StringIO):
    """a stream that is shown on a screen"""

    def isatty(self):
        return True


def quietly(call, tty):
    out, err = (Terminal(), Terminal()) if tty else (io.StringIO(), io.StringIO())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            res = call()
    return res, out.getvalue(), err.getvalue()


def runner(case):
    """-> function(show_progress or None) -> result snapshot of a fit, and whether snapshots can be compared"""
    b = fitted.Built(case["m"])
    kind, what = b.kind, case["what"]

    def kw(p):
        return {} if p is None else {"show_progress": p}

    if what == "method":
        def run(p):
            obj = b.obj if case["reuse"] and kind in ("split", "cmd") else fitted.new(kind, b.rs, b.metric)
            if kind in fitted.PD_KINDS:
                b.s.fit_kw.pop("show_progress", None)
            elif kind == "sejong":
                b.s.kw.pop("show_progress", None)
            b.fit(obj, **kw(p))
            return fitted.snapshot(obj)
        return run, kind in ("split", "cmd") or b.rs is not None or (kind in fitted.PD_KINDS and b.spec["case"].get("n") is None)
    if kind in fitted.PD_KINDS:
        b.s.fit_kw.pop("show_progress", None)
        b.s.fit_kw.pop("n", None)

        def run(p):
            if what == "additivity":
                m = AdditivityMeter()
                m.fit(b.s.model, b.s.data.X, **b.s.fit_kw, **kw(p))
                return dict(index=[float(m.additivity_index)])
            m = PartialDependenceBasedImportance()
            return dict(table=m.importance(b.s.model, b.s.data.X, **b.s.fit_kw, **b.s.feat_kw(), **kw(p)))
        return run, True
    if kind == "sejong":
        b.s.kw.pop("show_progress", None)

        def run(p):
            m = PermutationImportance(random_state=7, **({} if b.metric is None else {"metric": perm.METRICS[b.metric][0]()}))
            return dict(table=m.importance(b.s.model, b.s.data.X, b.s.y, n_repeat=case["m"]["case"]["reps"], **{**b.s.kw, **kw(p)}))
        return run, True
    return None, False


def equal(a, b):
    for k in a:
        x, y = a[k], b[k]
        if (x is None) != (y is None):
            return k
        if x is None:
            continue
        if hasattr(x, "columns"):
            if not oracle.frames_equal(x, y):
                return k
        elif x != y and not (k == "index" and any(v != v for v in x)):
            return k
    return None


def check(case, ctx):
    run, fixed = runner(case)
    if run is None:
        ctx.event("not applicable")
        return
    first = None
    for p in case["order"]:
        res, out, err = quietly(lambda: run(p), case["tty"])
        require(not out, f"standard output received {out[:80]!r} with show_progress={p}")
        if p:
            require(err.strip(), "no progress is shown although it was requested")
        else:
            require(not err, f"standard error received {err[:80]!r} with show_progress={p}")
        if first is None:
            first = res
        elif fixed:
            diff = equal(first, res)
            require(diff is None, f"{diff} differs between fits with and without progress {case['order']}")
    ctx.nontrivial(True in case["order"][:-1] and case["order"][-1] is not True)
    ctx.event(case["m"]["kind"] + " " + case["what"])


@st.composite
def many_trees(draw):
    """models with more trees than the others"""
    if draw(st.booleans()):
        c = draw(gbref.requests(trees.grown_specs(names=SAFE_NAMES[:3], min_trees=20, max_trees=70, max_depth=3)))
        c.pop("progress")
        return dict(c, kind="split")
    return dict(kind="cmd", spec=draw(trees.grown_forest_specs(names=SAFE_NAMES[:3], min_trees=20, max_trees=70, max_depth=3)))


@st.composite
def cases(draw, models=None, **kw):
    m = draw(models if models is not None else fitted.specs(**{"names": SAFE_NAMES, "lo": 2, **kw}))
    what = draw(st.sampled_from({"h": ["method", "importance", "additivity"], "sejong": ["method", "importance"]}.get(m["kind"], ["method"])))
    order = draw(st.lists(st.sampled_from([None, False, True, True]), min_size=2, max_size=3))
    return dict(m=m, what=what, order=order, reuse=draw(st.booleans()), tty=draw(st.booleans()))


SUBTESTS = [
    Sub("agnostic", cases(kinds=["h", "h", "h", "hu", "greenwell", "sejong", "sejong"], max_cols=4, small=True), check, 450, 6000),
    Sub("trees", cases(kinds=["split", "cmd"], max_cols=4), check, 375, 5000),
    Sub("many_trees", cases(models=many_trees()), check, 60, 800),
    Sub("wide", cases(kinds=["sejong", "hu", "greenwell"], max_cols=11, lo=9, small=True), check, 45, 600),
]
