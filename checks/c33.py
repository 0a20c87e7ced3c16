"""C33: the unified structure of boosted trees is the structure of the model."""
import json
import math

from hypothesis import strategies as st

from artemis._utilities._handler import GBTreesHandler
from lib import gbref, trees
from lib.harness import Sub
from lib.oracle import require

RULE = ("trained XGBoost and LightGBM models (boosters and scikit-learn wrappers, all objectives and growth policies) and boosters with synthesised "
        "trees of any shape, one to three of them unified one after the other by one handler; the trees rebuilt from the node table are "
        "compared node by node with the dumps of the packages. Non-trivial: some tree has a split below its root.")


def dumped(booster, lib):
    """[tree]: None for a leaf, (feature, gain, cover, left, right) for a split"""
    out = []
    if lib == "xgb":
        for text in booster.get_dump(with_stats=True, dump_format="json"):
            def go(node):
                if "leaf" in node:
                    return None
                ch = {c["nodeid"]: c for c in node["children"]}
                return (node["split"], float(node["gain"]), float(node["cover"]), go(ch[node["yes"]]), go(ch[node["no"]]))
            out.append(go(json.loads(text)))
    else:
        dump = booster.dump_model()
        names = dump["feature_names"]
        for info in dump["tree_info"]:
            def go(node):
                if "split_feature" not in node:
                    return None
                return (names[node["split_feature"]], float(node["split_gain"]), None, go(node["left_child"]), go(node["right_child"]))
            out.append(go(info["tree_structure"]))
    return out


def missing(v):
    return v is None or isinstance(v, float) and math.isnan(v)


def compare(df, want, lib):
    cols = ["tree", "ID", "split_feature", "left_child", "right_child", "gain", "leaf", "depth", "cover"]
    lost = [c for c in cols if c not in df.columns]
    require(not lost, f"columns {lost} are missing")
    nodes, children = {}, {}
    for r in df[cols].to_dict("records"):
        t = nodes.setdefault(int(r["tree"]), {})
        require(r["ID"] not in t, f"node {r['ID']} is listed twice")
        t[r["ID"]] = r
        for c in (r["left_child"], r["right_child"]):
            if not missing(c):
                children.setdefault(int(r["tree"]), []).append(c)
    require(sorted(nodes) == list(range(len(want))), f"trees {sorted(nodes)} are listed, the model has {len(want)}")
    deep = False
    for t, tree in enumerate(want):
        kids = children.get(t, [])
        require(len(set(kids)) == len(kids) and set(kids) <= set(nodes[t]), f"children of tree {t}: {sorted(kids)}, nodes {sorted(nodes[t])}")
        roots = set(nodes[t]) - set(kids)
        require(len(roots) == 1, f"tree {t} has the roots {sorted(roots)}")
        todo, seen = [(roots.pop(), tree, 0)], 0
        while todo:
            i, node, depth = todo.pop()
            r = nodes[t][i]
            seen += 1
            require(bool(r["leaf"]) == (node is None), f"node {i} is {'a leaf' if r['leaf'] else 'no leaf'} in the table, in the model it is not so")
            if lib == "lgb":
                require(int(r["depth"]) == depth, f"node {i} has depth {r['depth']}, expected {depth}")
            if node is None:
                require(missing(r["left_child"]) and missing(r["right_child"]), f"leaf {i} has children")
                continue
            f, g, c, a, b = node
            require(r["split_feature"] == f, f"node {i} splits {r['split_feature']}, the model splits {f}")
            require(gbref.close(float(r["gain"]), g), f"gain of node {i} is {r['gain']}, in the model {g}")
            if c is not None:
                require(gbref.close(float(r["cover"]), c), f"cover of node {i} is {r['cover']}, in the model {c}")
            require(not missing(r["left_child"]) and not missing(r["right_child"]), f"node {i} has no two children")
            todo += [(r["left_child"], a, depth + 1), (r["right_child"], b, depth + 1)]
            deep = deep or depth > 0
        require(seen == len(nodes[t]), f"tree {t} has {seen} connected nodes of {len(nodes[t])} listed")
    return deep


def check(case, ctx):
    h = GBTreesHandler() if case["empty"] else None
    earlier = []
    for spec in case["specs"]:
        arg, booster = trees.build_gb(dict(spec, form="booster") if spec["form"] == "handler" else spec)
        want = dumped(booster, spec["lib"])
        if h is None:
            h = GBTreesHandler(arg)
        else:
            h.unify_structure(arg)
        require(h.package == {"xgb": "xgboost", "lgb": "lightgbm"}[spec["lib"]], f"package is {h.package}")
        ctx.nontrivial(compare(h.trees_df, want, spec["lib"]))
        ctx.event(spec["lib"] + (" synthetic" if "trees" in spec or "tr" in spec else " trained " + spec["form"]))
        earlier.append((h.trees_df, want, spec["lib"]))
    for df, want, lib in earlier:
        compare(df, want, lib)


def cases(specs, most=3):
    return st.fixed_dictionaries(dict(specs=st.lists(specs, min_size=1, max_size=most), empty=st.booleans()))


SUBTESTS = [
    Sub("synthetic", cases(trees.synth_specs()), check, 500, 8000),
    Sub("trained", cases(trees.trained_specs()), check, 250, 4000),
    Sub("many_trees", cases(trees.grown_specs(**trees.MANY), 1), check, 30, 500),
    Sub("bushy", cases(trees.grown_specs(**trees.BUSHY), 1), check, 40, 600),
    Sub("long", cases(trees.grown_specs(**trees.LONG), 1), check, 40, 600),
    Sub("wide", cases(trees.grown_specs(**trees.WIDE), 1), check, 40, 600),
]
