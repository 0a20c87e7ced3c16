"""C29: the interaction graph draws strength as edge width and importance as node size."""
import math

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.patches import FancyArrowPatch

from lib import figs, fitted
from lib.gen import NAMES, SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("fitted methods of every kind drawn as graphs (alone or inside the summary) with random thresholds and maximal edge widths; edges, "
        "their widths, nodes and their sizes are read back from the matplotlib artists and compared with the result tables. Non-trivial: "
        "at least two edges with different widths.")
TH = {"h": 0.05, "hu": 0.05, "greenwell": 0.05, "sejong": 0.1, "split": 0.1, "cmd": 0.6}


def edges(ax, pos):
    """{(a, b): [width, ...]} of drawn edges between different nodes; lines of undirected graphs under both orders"""
    names = list(pos)
    at = lambda p: min(names, key=lambda n: float(np.hypot(*(pos[n] - p))))
    near = lambda p: min(float(np.hypot(*(pos[n] - p))) for n in names) < 1e-6
    out = {}
    for c in ax.collections:
        if isinstance(c, LineCollection):
            widths = list(c.get_linewidths())
            for i, seg in enumerate(c.get_segments()):
                if len(seg) < 2 or not (near(seg[0]) and near(seg[-1])):
                    continue
                a, b = at(seg[0]), at(seg[-1])
                if a != b:
                    out.setdefault((a, b), []).append(float(widths[i % len(widths)]))
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            a, b = (np.asarray(x, dtype=float) for x in p._posA_posB)
            if near(a) and near(b) and at(a) != at(b):
                out.setdefault((at(a), at(b)), []).append(float(p.get_linewidth()))
    return out


def node_sizes(ax, pos):
    out = {}
    for c in ax.collections:
        if isinstance(c, PathCollection):
            sizes = list(c.get_sizes())
            for i, p in enumerate(np.asarray(c.get_offsets(), dtype=float)):
                for n in pos:
                    if float(np.hypot(*(pos[n] - p))) < 1e-6:
                        out[n] = float(sizes[i % len(sizes)])
    return out


def check(case, ctx):
    b = fitted.Built(case["m"])
    m = b.fit()
    rows = [r for r in fitted.table(m, b.kind) if r[0] != r[1] and not math.isinf(r[2])]
    if not rows or len(rows) != len([r for r in fitted.table(m, b.kind) if r[0] != r[1]]):
        ctx.event("nothing to draw")
        return
    imp = fitted.importance(m)
    before = plt.get_fignums()
    opts = {k: v for k, v in case["opts"].items() if v is not None}
    if case["summary"]:
        m.plot("summary", **({"graph": dict(opts)} if opts else {}))
    else:
        m.plot("graph", **opts)
    fs = figs.new_figures(before)
    require(len(fs) == 1, f"{len(fs)} figures drawn")
    axes = figs.panels(fs[0])["graph"]
    nodes = {f for r in rows for f in r[:2]}
    axes = [a for a in axes if nodes <= {t.get_text() for t in a.texts}]
    require(len(axes) == 1, f"{len(axes)} graphs with the names {sorted(nodes)}")
    ax = axes[0]
    pos, _ = figs.graph_texts(ax, {t.get_text() for t in ax.texts} & ({f for f in imp} | nodes))
    require(nodes <= set(pos), f"graph names {sorted(pos)}, features are {sorted(nodes)}")
    drawn = edges(ax, pos)
    directed = b.kind == "cmd"
    th, top = opts.get("threshold_relevant_interaction", TH[b.kind]), opts.get("max_edge_width", 3 if directed else 20)
    value = {}
    for x, y, v in rows:
        value.setdefault((x, y) if directed else frozenset((x, y)), []).append(v)
    width = {}
    for (x, y), w in drawn.items():
        width.setdefault((x, y) if directed else frozenset((x, y)), []).extend(w)
    want = set(value)
    require(set(width) >= want, f"no edge for {[tuple(e) for e in want - set(width)]}")
    if not directed:
        require(set(width) == want, f"edges {[tuple(e) for e in set(width) - want]} without a reported value")
    ok = lambda v: v <= th if b.ascending else v >= th and v > 0
    flat = [(v[0], width[e][0], e) for e, v in value.items() if len(v) == 1 and len(width[e]) == 1]
    for v, w, e in flat:
        require(-1e-9 <= w <= top * (1 + 1e-9), f"width {w} of edge {tuple(e)}, the greatest is {top}")
        if not ok(v):
            require(w <= 1e-9 * top or math.isnan(w), f"edge {tuple(e)} with value {v} (threshold {th}) has width {w}")
    sig = sorted((v, w, e) for v, w, e in flat if ok(v))
    sig = sig if b.ascending else sig[::-1]
    for (v1, w1, e1), (v2, w2, e2) in zip(sig, sig[1:]):
        if v1 == v2:
            require(abs(w1 - w2) <= 1e-6 * top, f"edges {tuple(e1)} and {tuple(e2)} have equal values {v1} but widths {w1} and {w2}")
        else:
            require(w1 >= w2 - 1e-6 * top, f"edge {tuple(e1)} ({v1}) is thinner ({w1}) than {tuple(e2)} ({v2}, {w2})")
            if abs(v1 - v2) > 0.02 * (abs(sig[0][0] - sig[-1][0]) + 1e-12):
                require(w1 > w2, f"edges {tuple(e1)} and {tuple(e2)} with values {v1} and {v2} have the same width {w1}")
    best = [v for _, _, v in fitted.table(m, b.kind) if ok(v)]       # with splits on one feature, which are drawn as loops
    if best:
        strongest = min(best) if b.ascending else max(best)
        for v, w, e in flat:
            if v == strongest:
                require(abs(w - top) <= 1e-6 * top, f"the strongest edge {tuple(e)} has width {w}, the greatest is {top}")
    ctx.nontrivial(len({round(w, 6) for _, w, _ in sig}) > 1)
    ctx.event(b.kind + (" summary" if case["summary"] else ""))
    ctx.event("below threshold" if len(sig) < len(flat) else "all reach the threshold")
    sizes = node_sizes(ax, pos)
    require(set(nodes) <= set(sizes), f"nodes {sorted(sizes)} drawn, features are {sorted(nodes)}")
    vals = {f: imp[f] for f in nodes if imp.get(f) is not None}
    if vals and not b.importance_ascending and all(0 <= v < math.inf for v in imp.values() if v is not None):
        greatest = max(v for v in imp.values() if v is not None)
        base = opts.get("node_size", 1800)
        if greatest > 0:
            for f, v in vals.items():
                require(abs(sizes[f] - base * v / greatest) <= 1e-6 * base, f"node {f} with importance {v} has size {sizes[f]}, "
                        f"the greatest importance is {greatest} with size {base}")
            ctx.event("node sizes")
    plt.close("all")


@st.composite
def cases(draw, summary=False, **kw):
    m = draw(fitted.specs(**kw))
    none_or = lambda *v: draw(st.sampled_from([None, None] + list(v)))
    return dict(m=m, summary=summary, opts=dict(threshold_relevant_interaction=none_or(0.0, 0.3, 1.0, 5.0), max_edge_width=none_or(1, 7.5, 35),
                                                node_size=none_or(500)))


SUBTESTS = [
    Sub("agnostic", cases(kinds=["h", "hu", "greenwell", "sejong"], names=NAMES, lo=2, max_cols=5, dense=True, small=True), check, 450, 5000),
    Sub("trees", cases(kinds=["split", "cmd", "cmd"], names=SAFE_NAMES, lo=2, max_cols=5, dense=True), check, 450, 5000),
    Sub("small", cases(names=SAFE_NAMES, lo=2, max_cols=4), check, 450, 5000),
    Sub("wide", cases(kinds=["hu", "greenwell", "sejong", "cmd", "split", "h"], names=SAFE_NAMES, lo=5, max_cols=7, dense=True, small=True), check,
        144, 2000),
    Sub("summary", cases(summary=True, names=SAFE_NAMES, lo=2, max_cols=4, dense=True), check, 72, 1500),
]
