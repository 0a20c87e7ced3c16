"""C25: heatmaps, bar charts, graphs and summaries show the reported numbers."""
import math

import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt

from lib import figs, fitted, gbref, oracle, trees
from lib.gen import NAMES, SAFE_NAMES
from lib.harness import Sub
from lib.oracle import require

RULE = ("fitted methods of every kind drawn as heatmap, bar chart, graph, one-versus-all chart, conditional chart or summary with random "
        "top_k, n_highest_with_labels, threshold, annotation format, colour maps and title; cells, tick labels, annotations, bars and "
        "edge labels are read back from the matplotlib artists and compared with the result tables. Non-trivial: the table has at least "
        "three entries with two different values.")
TH = {"h": 0.05, "hu": 0.05, "greenwell": 0.05, "sejong": 0.1, "split": 0.1, "cmd": 0.6}


def near(a, b):
    return oracle.close(a, b, 1e-9 * max(1.0, abs(b)))


def heatmap(ax, m, b, opts):
    hm = figs.Heatmap(ax)
    require(not hm.double, f"cells {hm.double[:3]} drawn twice")
    require(None not in hm.rows and None not in hm.cols, f"heatmap labels {hm.rows} and {hm.cols}")
    require(hm.rows == hm.cols, f"rows {hm.rows} and columns {hm.cols} are labelled differently")
    require(len(set(hm.rows)) == len(hm.rows), f"rows {hm.rows}")
    d, imp = fitted.directed(m, b.kind), fitted.importance(m)
    features = {f for p in d for f in p if p[0] != p[1] or imp.get(f) is not None}
    require(features <= set(hm.rows), f"features {sorted(features)} reported, heatmap has {hm.rows}")
    strong = {}
    for r in hm.rows:
        for c in hm.cols:
            if r == c:
                want = imp.get(r)
            else:
                want = d.get((r, c))
                if want is None and b.kind == "split":
                    want = d.get((c, r))
            got = hm.values.get((r, c))
            what = f"cell {r}, {c}"
            # the installed seaborn annotates, with the installed matplotlib, only some cells, and masked ones with dashes
            texts = [t for t in hm.texts.get((r, c), []) if any(ch.isdigit() for ch in t)]
            if want is None:
                require(got is None and not texts, f"{what} shows {got} {texts}, there is no such value")
                continue
            require(got is not None and near(got, want), f"{what} shows {got}, reported is {want}")
            text = format(want, opts.get("annot_fmt", ".3f"))
            require(set(texts) <= {text}, f"{what} is annotated {texts}, value {text}")
            strong.setdefault(r == c, []).append((want, hm.darkness((r, c))))
    for diag, vals in strong.items():
        asc = b.importance_ascending if diag else b.ascending
        if ("importance_color_map" if diag else "interaction_color_map") in opts:
            continue
        vals = sorted(v for v in vals if not math.isinf(v[0]))
        if vals and vals[-1][0] - vals[0][0] > 1e-6 * max(1.0, abs(vals[-1][0])):
            weak, most = (vals[-1], vals[0]) if asc else (vals[0], vals[-1])
            require(most[1] > weak[1], f"the {'most important feature' if diag else 'strongest pair'} is not the darkest cell")


def bar_chart(ax, table, opts, what):
    k = opts.get("top_k", 10)
    want = table[:k]
    got = figs.bar_rows(ax)
    require(len(got) == len(want), f"{len(got)} bars in {what}, expected {len(want)} of {len(table)} with top_k={k}")
    values = {}
    for l, v in table:
        values.setdefault(l, []).append(v)
    for (gl, gv), (wl, wv) in zip(got, want):
        require(near(gv, wv), f"bars of {what} are {got}, the ranking is {want}")
        require(any(near(gv, v) for v in values.get(gl, [])), f"bar {gl} of {what} has length {gv}, reported is {values.get(gl)}")
    if len(values) == len(table):
        require(len({l for l, _ in got}) == len(got), f"{what} shows a bar twice: {got}")


def graph(ax, m, b, opts, ctx):
    rows = fitted.table(m, b.kind)
    nodes = {f for r in rows for f in r[:2]}
    pos, rest = figs.graph_texts(ax, nodes)
    require(set(pos) == nodes, f"graph names {sorted(pos)}, features are {sorted(nodes)}")
    if b.ascending:
        require(all(not t.strip() for t, _ in rest), f"edge labels {rest}")
        return
    th = opts.get("threshold_relevant_interaction", TH[b.kind])
    n = opts.get("n_highest_with_labels", 5)
    cand = sorted((r for r in rows if r[2] > 0 and r[2] >= th), key=lambda r: -r[2])
    want = cand[:n]
    require(len(rest) == len(want), f"{len(rest)} edge labels {[t for t, _ in rest]}, expected {[r[2] for r in want]} (threshold {th}, n {n})")
    labels = sorted((float(t) for t, _ in rest), reverse=True)
    for got, r in zip(labels, want):
        require(abs(got - round(r[2], 2)) <= 1e-9 * max(1, abs(got)), f"edge labels {labels}, strongest values are {[x[2] for x in want]}")
    for t, p in rest:
        mids = [r for r in cand if abs(float(t) - round(r[2], 2)) <= 1e-9 * max(1, abs(r[2])) and np.allclose((pos[r[0]] + pos[r[1]]) / 2, p, atol=1e-6)]
        require(mids, f"label {t} is not on the edge of a pair with that value")
    if want:
        ctx.event("edge labels")


def conditional(ax, m, b, opts):
    rows = fitted.table(m, b.kind)[:opts.get("top_k", 15)]
    imp = fitted.importance(m)
    got, locs = figs.bar_columns(ax)
    labels = [f"{x}:{y}" for x, y, _ in rows]
    require([l for l, _ in got] == labels, f"conditional chart shows {[l for l, _ in got]}, the table starts with {labels}")
    for (l, h), (x, y, v) in zip(got, rows):
        require(near(h, v), f"bar of {l} has height {h}, reported is {v}")
    pts = {round(x): y for x, y in figs.points(ax)}
    want = {i: imp[y] for i, (x, y, v) in enumerate(rows)}
    require(set(pts) == set(want) and all(near(pts[i], want[i]) for i in want), f"importance markers at {pts}, minimal depths are {want}")


def check(case, ctx):
    b = fitted.Built(case["m"])
    kind = b.kind
    m = b.fit()
    rows = fitted.table(m, kind)
    if not rows:
        ctx.event("empty table")
        return
    if any(math.isinf(r[2]) for r in rows):
        ctx.event("infinite value, not drawn")
        return
    if kind == "split" and all(a == c for a, c, _ in rows):
        ctx.event("only same-feature splits")
        return
    for vis in case["vis"]:
        draw_and_read(vis, m, b, rows, case, ctx)


def draw_and_read(vis, m, b, rows, case, ctx):
    kind = b.kind
    o = {k: v for k, v in case["opts"].items() if v is not None}
    heat = {k: o[k] for k in ("annot_fmt", "interaction_color_map", "importance_color_map") if k in o}
    bar = {k: o[k] for k in ("top_k",) if k in o}
    gr = {k: o[k] for k in ("threshold_relevant_interaction", "n_highest_with_labels") if k in o}
    if case["at"] is not None:      # a threshold that is exactly one of the values
        gr["threshold_relevant_interaction"] = rows[case["at"] % len(rows)][2]
    ova_opts = {"top_k": o["top_k_ova"]} if "top_k_ova" in o else {}
    kw = {} if case["title"] is None else {"title": case["title"]}
    before = plt.get_fignums()
    if vis == "summary":
        m.plot(vis, heatmap=dict(heat), graph=dict(gr), bar_chart=dict(bar), bar_chart_ova=dict(ova_opts), **kw) if case["nested"] else m.plot(vis, **kw)
        if not case["nested"]:
            heat, gr, bar, ova_opts = {}, {}, {}, {}
    elif vis == "heatmap":
        m.plot(vis, **heat, **kw) if case["named"] else m.plot(**heat, **kw)
    elif vis == "bar_chart_ova":
        m.plot(vis, **ova_opts, **kw)
    else:
        m.plot(vis, **(bar if vis.startswith("bar") else gr), **kw)
    figures = figs.new_figures(before)
    require(len(figures) == 1, f"{len(figures)} figures drawn")
    fig = figures[0]
    p = figs.panels(fig)
    shown = {k: len(v) for k, v in p.items()}
    pair_rows = [(f"{x}:{y}", v) for x, y, v in rows]
    ova_rows = None
    if kind in ("h", "hu"):
        ova_rows = oracle.rows(m.ova, ["Feature", m.method], "ova")
    if vis == "summary":
        n_bars = 2 if ova_rows is not None else 1
        require(shown == dict(heatmap=1, bars=n_bars, graph=1), f"summary shows {shown}")
        heatmap(p["heatmap"][0], m, b, heat)
        graph(p["graph"][0], m, b, gr, ctx)
        is_ova = lambda ax: all(l in b.s.names for l, _ in figs.bar_rows(ax))
        if ova_rows is not None:
            first, second = p["bars"]
            if is_ova(first) and not is_ova(second):
                first, second = second, first
            bar_chart(first, pair_rows, bar, "bar chart in summary")
            bar_chart(second, ova_rows, ova_opts, "one versus all chart in summary")
        else:
            bar_chart(p["bars"][0], pair_rows, bar, "bar chart in summary")
    else:
        key = {"heatmap": "heatmap", "graph": "graph"}.get(vis, "bars")
        require(shown == {**dict(heatmap=0, bars=0, graph=0), key: 1}, f"{vis} shows {shown}")
        ax = p[key][0]
        if vis == "heatmap":
            heatmap(ax, m, b, heat)
        elif vis == "graph":
            graph(ax, m, b, gr, ctx)
        elif vis == "bar_chart":
            bar_chart(ax, pair_rows, bar, "bar chart")
        elif vis == "bar_chart_ova":
            bar_chart(ax, ova_rows, ova_opts, "one versus all chart")
        else:
            conditional(ax, m, b, bar)
    if case["title"] is not None:
        shown = fig._suptitle.get_text() if vis == "summary" and fig._suptitle else p[key][0].get_title()
        require(shown == case["title"], f"title is {shown!r}, requested {case['title']!r}")
    plt.close("all")
    ctx.nontrivial(len(rows) > 2 and len({r[2] for r in rows}) > 1)
    ctx.event(kind + " " + vis)


def check_lollipop(case, ctx):
    b = fitted.Built(case["m"])
    m = b.fit()
    if not fitted.table(m, "split"):
        ctx.event("empty table")
        return
    lib = case["m"]["spec"]["lib"]
    walk = trees.walk_gb(b.booster, lib)
    total = b.booster.num_trees() if lib == "lgb" else len(b.booster.get_dump())
    o = {k: v for k, v in case["opts"].items() if v is not None}
    before = plt.get_fignums()
    m.plot("lollipop", **o, **({} if case["title"] is None else {"title": case["title"]}))
    fs = figs.new_figures(before)
    require(len(fs) == 1 and len(fs[0].axes) == 1, f"{len(fs)} figures drawn")
    ax = fs[0].axes[0]
    fs[0].canvas.draw()
    share = o.get("max_trees", 0.2) * total
    depth = o.get("max_depth", 1)
    shown = sorted(figs.points(ax))
    options = []
    for k in sorted({max(1, math.floor(share - 1e-9)), math.ceil(share + 1e-9), math.ceil(share - 1e-9)}):
        k = min(k, total)
        sel = [s for s in walk if s["tree"] < k and s["depth"] <= depth]
        want = sorted((s["tree"] + 1.0, s["gain"]) for s in sel)
        options.append((k, sel, want))
    # equal gains can be ordered either way, so points are compared after rounding to the precision of the dumps
    match = [x for x in options if len(x[2]) == len(shown) and all(p[0] == w[0] and gbref.close(p[1], w[1]) for p, w in zip(shown, x[2]))]
    require(match, f"points {shown[:6]} ({len(shown)}) for {share} of {total} trees to depth {depth}, expected {options[-1][2][:6]} ({len(options[-1][2])})")
    sel = match[-1][1]
    roots = sorted((s["tree"] + 1.0, s["gain"]) for s in sel if s["depth"] == 0)
    line = [tuple(p) for l in ax.lines for p in np.array(l.get_xydata(), dtype=float).tolist() if not math.isnan(p[1])]
    require(len(line) == len(roots) and all(p[0] == w[0] and gbref.close(p[1], w[1]) for p, w in zip(line, roots)),
            f"line through {line[:5]}, root gains are {roots[:5]}")
    require(ax.get_xscale() == o.get("scale", "linear"), f"x scale is {ax.get_xscale()}")
    ticks = {round(float(x), 6): t.get_text() for x, t in zip(ax.get_xticks(), ax.get_xticklabels())}
    for x, _ in roots:
        require(ticks.get(x) and float(ticks[x]) == x - 1, f"tree {x - 1} is labelled {ticks.get(x)}")
    if case["title"] is not None:
        require(ax.get_title() == case["title"], f"title is {ax.get_title()!r}")
    got = sorted((xy[0], t, xy[1]) for t, xy in figs.annotations(ax))
    want, open_ = [], []
    if o.get("labels", True):
        top = max((s["gain"] for s in sel if s["depth"] == 0), default=0)
        limit = o.get("label_threshold", 0.1) * top
        for s in sel:
            if s["depth"] == 0:
                if abs(s["gain"] - limit) <= 1e-5 * top and limit != top:
                    open_.append(s)
                elif s["gain"] >= limit - 1e-5 * top:
                    want.append((s["tree"] + 1.0, s["feature"], s["gain"]))
            elif s["feature"] != s["parent"][0] and s["gain"] > s["parent"][1]:
                want.append((s["tree"] + 1.0, s["parent"][0] + ":" + s["feature"], s["gain"]))
    if open_:
        ctx.event("root at the label threshold")
    else:
        want.sort()
        ok = len(got) == len(want) and all(g[:2] == w[:2] and gbref.close(g[2], w[2]) for g, w in zip(got, want))
        require(ok, f"labels {got[:8]}, expected {want[:8]}")
    ctx.nontrivial(len(sel) > 3 and any(s["depth"] for s in sel))
    ctx.event("%s %s" % (lib, "all trees" if match[-1][0] == total else "first trees"))


@st.composite
def lollipop_cases(draw):
    m = draw(fitted.specs(kinds=["split"], names=SAFE_NAMES, lo=2, max_cols=4))
    none_or = lambda *v: draw(st.sampled_from([None, None] + list(v)))
    return dict(m=m, title=none_or("My title"), opts=dict(
        max_trees=none_or(1.0, 1, 0.5, 0.3, 0.75), max_depth=none_or(2, 3, 5, 8), label_threshold=none_or(0.0, 0.5, 1.0), labels=none_or(False, True),
        scale=none_or("log", "linear")))


@st.composite
def cases(draw, only=None, **kw):
    m = draw(fitted.specs(**kw))
    vis = draw(st.lists(st.sampled_from([v for v in fitted.VIS[m["kind"]] if v != "lollipop" and (only is None or v in only)]), min_size=1,
                        max_size=3 if only != ("summary",) else 1, unique=True))
    none_or = lambda *v: draw(st.sampled_from([None, None] + list(v)))
    return dict(m=m, vis=vis, nested=draw(st.booleans()), named=draw(st.booleans()), title=none_or("My title", "", "a=1"),
                at=draw(st.sampled_from([None, None, None, 0, 1, 2])),
                opts=dict(annot_fmt=none_or(".1f", ".2e", "g"), interaction_color_map=none_or("Blues"), importance_color_map=none_or("Reds"),
                          top_k=none_or(1, 2, 3, 20), top_k_ova=none_or(1, 2, 4), n_highest_with_labels=none_or(0, 1, 2, 20),
                          threshold_relevant_interaction=none_or(0.0, 0.3, 1.0, 5.0)))


SIMPLE = ("heatmap", "bar_chart", "graph", "bar_chart_ova", "bar_chart_conditional")
SUBTESTS = [
    Sub("agnostic", cases(SIMPLE, kinds=["h", "hu", "greenwell", "sejong", "cmd"], names=NAMES, lo=2, max_cols=5, dense=True, small=True), check, 330, 5000),
    Sub("wide", cases(SIMPLE, kinds=["hu", "greenwell", "sejong", "cmd", "split", "h"], names=SAFE_NAMES, lo=5, max_cols=6, dense=True, small=True), check,
        150, 2500),
    Sub("trees", cases(SIMPLE, kinds=["split", "split", "cmd"], names=SAFE_NAMES, lo=3, max_cols=5, dense=True), check, 270, 5000),
    Sub("small", cases(SIMPLE, names=SAFE_NAMES, lo=2, max_cols=4), check, 270, 5000),
    Sub("summary", cases(("summary",), names=SAFE_NAMES, lo=3, max_cols=5, dense=True), check, 135, 2500),
    Sub("lollipop", lollipop_cases(), check_lollipop, 300, 5000),
]
