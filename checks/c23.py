"""C23: comparison of methods against own rank correlations and the drawn points."""
import math

from hypothesis import strategies as st
from matplotlib import pyplot as plt

from artemis.comparison import FeatureInteractionMethodComparator
from lib import figs, fitted, oracle
from lib.gen import SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("two fitted methods of random kinds (partial dependence based, shuffling based, split score with any metric, conditional minimal "
        "depth) over overlapping feature names, with ties, directed pairs and pairs scored by one method only; correlations() and "
        "correlation() compared with own Pearson, Kendall tau-b and Spearman of averaged strength ranks, in both argument orders, and the "
        "comparison plot with the tables point by point. Non-trivial: at least three common pairs with a defined correlation.")


def ranks(values, tol):
    """averaged ranks, 1 = greatest; values within tol are ties"""
    order = sorted(range(len(values)), key=lambda i: -values[i])
    out = [0.0] * len(values)
    i = 0
    while i < len(order):
        j = i
        while j + 1 < len(order) and values[order[j]] - values[order[j + 1]] <= tol * max(1.0, abs(values[order[j]])) \
                or j + 1 < len(order) and values[order[j]] == values[order[j + 1]]:
            j += 1
        for k in range(i, j + 1):
            out[order[k]] = (i + j) / 2 + 1
        i = j + 1
    return out


def pearson(x, y):
    n = len(x)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    sxx, syy = math.fsum((a - mx) ** 2 for a in x), math.fsum((b - my) ** 2 for b in y)
    if sxx == 0 or syy == 0:
        return None
    return math.fsum((a - mx) * (b - my) for a, b in zip(x, y)) / math.sqrt(sxx * syy)


def kendall(x, y):
    con = tx = ty = 0
    n = len(x)
    for i in range(n):
        for j in range(i):
            a, b = (x[i] > x[j]) - (x[i] < x[j]), (y[i] > y[j]) - (y[i] < y[j])
            con += a * b
            tx += a != 0
            ty += b != 0
    return None if tx == 0 or ty == 0 else con / math.sqrt(tx * ty)


def reference(t1, t2, asc1, asc2, tol):
    common = sorted((p for p in t1 if p in t2), key=sorted)
    if len(common) < 2:
        return dict(pearson=None, kendall=None, spearman=None), common
    r1 = ranks([(-1 if asc1 else 1) * t1[p] for p in common], tol)
    r2 = ranks([(-1 if asc2 else 1) * t2[p] for p in common], tol)
    return dict(pearson=pearson(r1, r2), kendall=kendall(r1, r2), spearman=pearson(r1, r2)), common


def agrees(got, ref, tol=1e-9):
    try:
        got = float(got)
    except (TypeError, ValueError):
        return False
    return math.isnan(got) if ref is None else abs(got - ref) <= tol


def values_of(df):
    out = {}
    for k, v in oracle.rows(df, ["method", "value"], "correlations"):
        require(k not in out, f"correlations list {k} twice")
        out[k] = v
    require(set(out) == {"pearson", "kendall", "spearman"}, f"correlations list {sorted(out)}")
    return out


def check(case, ctx):
    b1, b2 = fitted.Built(case["m1"]), fitted.Built(case["m2"])
    m1, m2 = b1.fit(), b2.fit()
    t1, t2 = (fitted.lookup(m, b.kind, b.ascending) for m, b in ((m1, b1), (m2, b2)))
    if not t1 or not t2:
        ctx.event("empty table")
        return
    if any(len(p) == 1 for p in t1) and any(len(p) == 1 for p in t2):
        ctx.event("same-feature splits in both, not compared")
        return
    if any(math.isinf(v) for v in list(t1.values()) + list(t2.values())):
        ctx.event("infinite value, not compared")
        return
    refs, common = [], None
    for tol in (0.0, 1e-9):
        r, common = reference(t1, t2, b1.ascending, b2.ascending, tol)
        refs.append(r)
    comp = FeatureInteractionMethodComparator()

    def right(got, name, what, tol=1e-9):
        require(any(agrees(got, r[name], tol) for r in refs),
                f"{what} {name} correlation of {b1.kind} and {b2.kind} is {got}, ranks of the common pairs give {refs[0][name]}")

    got = values_of(comp.correlations(m1, m2))
    back = values_of(comp.correlations(m2, m1))
    for name in got:
        right(got[name], name, "")
        right(back[name], name, "reversed")
        right(comp.correlation(m1, m2, name), name, "single")
    right(comp.correlation(m2, m1), "kendall", "default")
    for m, b, t in ((m1, b1, t1), (m2, b2, t2)):
        t = {p: v for p, v in t.items() if len(p) == 2}
        if len(set(t.values())) > 1 and len(t) > 1 and len(t) == len(fitted.lookup(m, b.kind, b.ascending)):
            for name, v in values_of(comp.correlations(m, m)).items():
                require(agrees(v, 1.0), f"{name} correlation of a method with itself is {v}")
    ctx.nontrivial(len(common) >= 3 and refs[0]["kendall"] is not None)
    ctx.event(f"{len(common)} common pairs")
    ctx.event(f"{b1.kind}-{b2.kind}")
    if not case["plot"]:
        return
    if case["summary"]:
        comp.summary(m1, m2)
        for name, v in values_of(comp.correlations_df).items():
            right(v, name, "summary")
        ax = figs.comparison_axes(comp.ovo_profiles_comparison_plot)
        n_labels = 3
    else:
        n_labels = case["n_labels"] if case["n_labels"] is not None else 3
        kw = {} if case["n_labels"] is None else {"n_labels": n_labels}
        if case.get("size") is not None:
            kw["figsize"] = tuple(case["size"])
        ax = figs.comparison_axes(comp.comparison_plot(m1, m2, add_correlation_box=case["box"], **kw))
    ctx.event("plot")
    want = (8, 6) if case["summary"] or case.get("size") is None else tuple(case["size"])
    size = tuple(map(float, ax.figure.get_size_inches()))
    require(all(oracle.close(x, y, 1e-9) for x, y in zip(size, want)), f"figure of size {size}, requested {want}")
    require((ax.get_xlabel(), ax.get_ylabel()) == (m1.method, m2.method), f"axes of {m1.method} and {m2.method} are labelled {ax.get_xlabel()} and {ax.get_ylabel()}")
    rows = fitted.table(m1, b1.kind) if b1.kind != "cmd" else [tuple(sorted(p)) + (v,) for p, v in t1.items()]
    expect = sorted((v, t2[frozenset((a, c))]) for a, c, v in rows if frozenset((a, c)) in t2)
    got = figs.points(ax)
    ok = len(got) == len(expect) and all(oracle.close(x[0], y[0], 1e-9 * max(1, abs(y[0]))) and oracle.close(x[1], y[1], 1e-9 * max(1, abs(y[1])))
                                         for x, y in zip(got, expect))
    require(ok, f"points {got} drawn, common pairs have {expect}")
    require(figs.inverted(ax) == (b1.ascending, b2.ascending),
            f"axes inverted {figs.inverted(ax)}, smaller means stronger {(b1.ascending, b2.ascending)}")
    box = figs.correlation_box(ax)
    if case["summary"] or case["box"]:
        require(box is not None, "no correlation box")
        for name, v in box.items():
            right(v, name, "boxed", 6e-4)
    else:
        require(box is None, "correlation box although not requested")
    marks = [(t, xy) for t, xy in figs.annotations(ax) if not any(map(math.isnan, xy))]     # others are not visible
    names = {}
    for a, c, v in rows:
        if frozenset((a, c)) in t2:
            for text in (f"{a}-{c}", f"{c}-{a}"):
                names.setdefault(text, []).append((v, t2[frozenset((a, c))]))
    require(len(marks) <= n_labels, f"{len(marks)} labels drawn, {n_labels} requested")
    for text, xy in marks:
        require(any(all(oracle.close(x, y, 1e-9 * max(1, abs(y))) for x, y in zip(xy, p)) for p in names.get(text, [])),
                f"label {text} at {xy}, that pair is at {names.get(text)}")
    top = sorted(rows, key=lambda r: r[2] if b1.ascending else -r[2])
    if all(frozenset(r[:2]) in t2 for r in top[:n_labels]):
        require(len(marks) == min(n_labels, len(top)), f"{len(marks)} labels, {n_labels} of {len(top)} pairs requested")
        if len(top) > n_labels > 0 and abs(top[n_labels - 1][2] - top[n_labels][2]) > 1e-9 * max(1, abs(top[n_labels][2])):
            require({xy for _, xy in marks} <= {(r[2], t2[frozenset(r[:2])]) for r in top[:n_labels]} or
                    all(any(oracle.close(xy[0], r[2], 1e-9 * max(1, abs(r[2]))) for r in top[:n_labels]) for _, xy in marks),
                    f"labels {marks} are not those of the strongest pairs {top[:n_labels]}")
            ctx.event("labels of strongest pairs")
    plt.close("all")


@st.composite
def cases(draw, plot=0, k=None, **kw):
    args = dict(names=SAFE_NAMES[:5], max_cols=5, lo=3, small=True, max_order=2)
    if k:
        n = draw(st.integers(*k))
        args.update(names=SAFE_NAMES[:n], max_cols=n, lo=n, dense=True)
    args.update(kw)
    one, two = draw(fitted.specs(**args)), draw(fitted.specs(**args))
    if one["kind"] == two["kind"] == "split":
        two["only"] = True
    return dict(m1=one, m2=two, plot=draw(st.integers(0, 5)) < plot, summary=draw(st.booleans()), box=draw(st.booleans()),
                n_labels=draw(st.sampled_from([None, 0, 1, 2, 4])), size=draw(st.sampled_from([None, [4, 3], [7, 9]])))


SUBTESTS = [
    Sub("any", cases(), check, 320, 5000),
    Sub("dense", cases(k=(3, 5)), check, 448, 6000),
    Sub("trees", cases(kinds=["split", "split", "cmd", "h"], k=(3, 5)), check, 448, 6000),
    Sub("wide", cases(kinds=["split", "cmd", "hu", "greenwell", "sejong"], k=(11, 12), plot=3), check, 64, 800),
    Sub("plots", cases(plot=6, k=(3, 4)), check, 240, 4000),
]
