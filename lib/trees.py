"""Tree ensembles: trained on generated data or synthesised node by node, and reference walks over their structure.

Boosted spec (trained): {"lib": "xgb"|"lgb", "form": ..., "names": [...], "rows", "lev": [...], "r": seed, "rounds", "depth",
                         "policy", "obj": "reg"|"bin"|"multi", "booster"}
Boosted spec (synthetic): {"lib", "form": "booster"|"handler", "names", "trees": [tree...], "order": [ints]}
   tree = 0 (a leaf) or [feature, gain, cover, left, right]
Forest spec: {"cls": rfr|rfc|etr|etc, "names", "rows", "lev", "r", "trees", "depth", "mln", "mf", "msl", "classes"}
"""
import json

import lightgbm as lgb
import numpy as np
import pandas as pd
import xgboost as xgb
from hypothesis import strategies as st
from sklearn.ensemble import ExtraTreesClassifier, ExtraTreesRegressor, RandomForestClassifier, RandomForestRegressor

from sklearn.tree._tree import NODE_DTYPE, Tree

from artemis._utilities._handler import GBTreesHandler
from lib.gen import SAFE_NAMES, lcg

# ---------------------------------------------------------------- data for training


def table(spec):
    cols = {}
    for j, n in enumerate(spec["names"]):
        g = lcg(spec["r"] * 31 + j)
        cols[n] = [float(next(g) % spec["lev"][j]) - spec["lev"][j] // 2 for _ in range(spec["rows"])]
    X = pd.DataFrame(cols, columns=spec["names"])
    E = X.values
    g = lcg(spec["r"] * 31 + 99)
    mix = spec.get("mix", 0)
    y = np.zeros(len(E))
    d = E.shape[1]
    for j in range(d):
        y += ((mix >> j) % 3 - 1 + 0.5) * E[:, j]
    for j in range(d - 1):
        y += (1 + j) * 0.7 * E[:, j] * E[:, (j + 1 + mix) % d]
    y += np.array([(next(g) % 100) / 50.0 for _ in range(len(E))]) * (mix % 2)
    return X, y


def labels(y, k):
    """k classes, every class present when there are at least k rows"""
    order = np.argsort(y, kind="stable")
    out = np.zeros(len(y), dtype=int)
    for c, part in enumerate(np.array_split(order, k)):
        out[part] = c
    return out


# ---------------------------------------------------------------- boosted trees

def grow(tr, d):
    """trees described by {"r": seed, "n": number, "depth": limit, "stop": chance in 10 of a leaf}"""
    g = lcg(tr["r"])

    def go(depth):
        if depth >= tr["depth"] or next(g) % 10 < tr["stop"] and depth > 0:
            return 0
        return [next(g) % d, GAINS[next(g) % len(GAINS)] if next(g) % 2 else (next(g) % 1000 + 1) / 16.0, [1.0, 2.0, 5.0, 8.0][next(g) % 4],
                go(depth + 1), go(depth + 1)]
    return [go(0) for _ in range(tr["n"])]


def build_gb(spec):
    """-> (argument for SplitScoreMethod.fit, plain booster for the reference walk)"""
    if "tr" in spec:
        spec = dict(spec, trees=grow(spec["tr"], len(spec["names"])))
    if "trees" in spec:
        booster = synth_xgb(spec) if spec["lib"] == "xgb" else synth_lgb(spec)
        return (GBTreesHandler(booster) if spec["form"] == "handler" else booster), booster
    X, y = table(spec)
    if spec.get("unnamed"):
        X = X.values
    obj = spec["obj"]
    yy = y if obj == "reg" else labels(y, 2 if obj == "bin" else 3)
    if spec["lib"] == "xgb":
        params = dict(max_depth=spec["depth"], grow_policy=spec["policy"], tree_method="hist", nthread=1, verbosity=0,
                      learning_rate=0.5, booster=spec.get("booster", "gbtree"), min_child_weight=0.1)
        if spec.get("parallel", 1) > 1:
            params["num_parallel_tree"] = spec["parallel"]
        if spec["policy"] == "lossguide":
            params["max_leaves"] = spec["depth"] * 2
            params["max_depth"] = 0
        if spec["form"].startswith("wrapper"):
            kw = dict(params, n_estimators=spec["rounds"], n_jobs=1)
            kw.pop("nthread")
            m = (xgb.XGBRegressor if obj == "reg" else xgb.XGBClassifier)(**kw).fit(X, yy)
            booster = m.get_booster()
        else:
            params["objective"] = {"reg": "reg:squarederror", "bin": "binary:logistic", "multi": "multi:softprob"}[obj]
            if obj == "multi":
                params["num_class"] = 3
            m = booster = xgb.train(params, xgb.DMatrix(X, yy), spec["rounds"])
    else:
        params = dict(num_leaves=2 ** spec["depth"] if spec["policy"] == "depthwise" else spec["depth"] * 2,
                      max_depth=spec["depth"] if spec["policy"] == "depthwise" else -1, min_child_samples=1, verbosity=-1,
                      min_child_weight=1e-6, learning_rate=0.5, min_data_in_bin=1, boosting_type=spec.get("boosting", "gbdt"))
        if params["boosting_type"] == "rf":
            params.update(subsample_freq=1, subsample=0.7)
        cats = list(range(min(spec.get("cats", 0), len(spec["names"])))) or "auto"
        if cats != "auto":      # categories are whole numbers from zero
            X = X - X.min() if not spec.get("unnamed") else X - X.min(axis=0)
            params.update(min_data_per_group=1, cat_smooth=0.1, cat_l2=0.1)
        if spec["form"].startswith("wrapper"):
            kw = dict(params, n_estimators=spec["rounds"], n_jobs=1)
            m = (lgb.LGBMRegressor if obj == "reg" else lgb.LGBMClassifier)(**kw).fit(X, yy, categorical_feature=cats)
            booster = m.booster_
        else:
            params["objective"] = {"reg": "regression", "bin": "binary", "multi": "multiclass"}[obj]
            params["num_threads"] = 1
            if obj == "multi":
                params["num_class"] = 3
            m = booster = lgb.train(params, lgb.Dataset(X, yy, categorical_feature=cats), spec["rounds"])
    if spec["form"] == "handler":
        m = GBTreesHandler(m)
    return m, booster


def expand_order(tree, order):
    """Numbers the nodes in the order a growing tree would: returns list of (node, left id, right id, parent id)."""
    nodes = [[tree, -1, -1, None]]
    open_ids, k = [0], 0
    while open_ids:
        i = open_ids.pop(order[k % len(order)] % len(open_ids) if order else 0)
        k += 1
        node = nodes[i][0]
        if node == 0:
            continue
        for side in (1, 2):
            nodes.append([node[2 + side], -1, -1, i])
            nodes[i][side] = len(nodes) - 1
            open_ids.append(len(nodes) - 1)
    return nodes


def synth_xgb(spec):
    names = spec["names"]
    d = len(names)
    trees = []
    for t, tree in enumerate(spec["trees"]):
        nodes = expand_order(tree, spec["order"])
        n = len(nodes)
        split = [x[0] != 0 for x in nodes]
        trees.append({
            "base_weights": [0.1] * n, "categories": [], "categories_nodes": [], "categories_segments": [], "categories_sizes": [],
            "default_left": [int(s) for s in split], "id": t,
            "left_children": [x[1] for x in nodes], "right_children": [x[2] for x in nodes],
            "loss_changes": [float(x[0][1]) if s else 0.0 for x, s in zip(nodes, split)],
            "parents": [2147483647 if x[3] is None else x[3] for x in nodes],
            "split_conditions": [0.5 if s else 0.1 for s in split],
            "split_indices": [int(x[0][0]) if s else 0 for x, s in zip(nodes, split)], "split_type": [0] * n,
            "sum_hessian": [float(x[0][2]) if s else 1.0 for x, s in zip(nodes, split)],
            "tree_param": {"num_deleted": "0", "num_feature": str(d), "num_nodes": str(n), "size_leaf_vector": "0"}})
    model = {"learner": {
        "attributes": {}, "feature_names": names, "feature_types": ["float"] * d,
        "gradient_booster": {"model": {"gbtree_model_param": {"num_parallel_tree": "1", "num_trees": str(len(trees)),
                                                              "size_leaf_vector": "0"},
                                       "tree_info": [0] * len(trees), "trees": trees}, "name": "gbtree"},
        "learner_model_param": {"base_score": "5E-1", "boost_from_average": "1", "num_class": "0", "num_feature": str(d),
                                "num_target": "1"},
        "objective": {"name": "reg:squarederror", "reg_loss_param": {"scale_pos_weight": "1"}}}, "version": [1, 7, 2]}
    b = xgb.Booster({"nthread": 1})
    b.load_model(bytearray(json.dumps(model).encode()))
    return b


def synth_lgb(spec):
    names = spec["names"]
    blocks = []
    for t, tree in enumerate(spec["trees"]):
        nodes = expand_order(tree, spec["order"])
        internal = [i for i, x in enumerate(nodes) if x[0] != 0]
        # internal nodes are numbered in order of expansion, parents first
        num = {i: k for k, i in enumerate(internal)}
        leaf = {i: k for k, i in enumerate(i for i, x in enumerate(nodes) if x[0] == 0)}
        child = lambda i: num[i] if i in num else -leaf[i] - 1
        j = lambda vals: " ".join(str(v) for v in vals)
        L = len(leaf)
        if not internal:
            blocks.append(f"Tree={t}\nnum_leaves=1\nnum_cat=0\nsplit_feature=\nsplit_gain=\nthreshold=\ndecision_type=\nleft_child=\n"
                          "right_child=\nleaf_value=0.1\nleaf_weight=\nleaf_count=\ninternal_value=\ninternal_weight=\n"
                          "internal_count=\nis_linear=0\nshrinkage=1\n\n\n")
            continue
        blocks.append(
            f"Tree={t}\nnum_leaves={L}\nnum_cat=0\nsplit_feature={j(nodes[i][0][0] for i in internal)}\n"
            f"split_gain={j(nodes[i][0][1] for i in internal)}\nthreshold={j(0.5 for _ in internal)}\n"
            f"decision_type={j(2 for _ in internal)}\nleft_child={j(child(nodes[i][1]) for i in internal)}\n"
            f"right_child={j(child(nodes[i][2]) for i in internal)}\nleaf_value={j(0.1 for _ in range(L))}\n"
            f"leaf_weight={j(1 for _ in range(L))}\nleaf_count={j(1 for _ in range(L))}\ninternal_value={j(0 for _ in internal)}\n"
            f"internal_weight={j(nodes[i][0][2] for i in internal)}\ninternal_count={j(2 for _ in internal)}\nis_linear=0\n"
            "shrinkage=1\n\n\n")
    text = ("tree\nversion=v3\nnum_class=1\nnum_tree_per_iteration=1\nlabel_index=0\n"
            f"max_feature_idx={len(names) - 1}\nobjective=regression\nfeature_names={' '.join(names)}\n"
            f"feature_infos={' '.join('[0:1]' for _ in names)}\ntree_sizes={' '.join(str(len(b.encode())) for b in blocks)}\n\n"
            + "".join(blocks) + "end of trees\n\nfeature_importances:\n\nparameters:\nend of parameters\n\npandas_categorical:[]\n")
    return lgb.Booster(model_str=text)


def walk_gb(booster, lib):
    """Reference walk of every tree: list of splits
    dict(tree, feature, gain, cover, depth, parent=(feature, gain) or None). Uses the dump of the package, not artemis."""
    out = []
    if lib == "xgb":
        for t, text in enumerate(booster.get_dump(with_stats=True, dump_format="json")):
            def go(node, depth, parent):
                if "leaf" in node:
                    return
                s = dict(tree=t, feature=node["split"], gain=float(node["gain"]), cover=float(node["cover"]), depth=depth,
                         parent=parent)
                out.append(s)
                for ch in node["children"]:
                    go(ch, depth + 1, (s["feature"], s["gain"]))
            go(json.loads(text), 0, None)
    else:
        dump = booster.dump_model()
        names = dump["feature_names"]
        for info in dump["tree_info"]:
            def go(node, depth, parent):
                if "split_feature" not in node:
                    return
                s = dict(tree=info["tree_index"], feature=names[node["split_feature"]], gain=float(node["split_gain"]), cover=None,
                         depth=depth, parent=parent)
                out.append(s)
                go(node["left_child"], depth + 1, (s["feature"], s["gain"]))
                go(node["right_child"], depth + 1, (s["feature"], s["gain"]))
            go(info["tree_structure"], 0, None)
    return out


@st.composite
def tree_names(draw, lo=2, hi=5, pool=None):
    pool = pool or SAFE_NAMES
    k = draw(st.integers(lo, hi))
    p = draw(st.permutations(pool)) if draw(st.booleans()) else pool
    return list(p[:k])


GAINS = [1.0, 2.0, 0.5, 3.0, 10.0, 2.5, 0.0, 100.0]


@st.composite
def synth_trees(draw, d, max_depth=4):
    def grow(depth):
        if depth >= max_depth or (depth > 0 and draw(st.integers(0, 2)) == 0):
            return 0
        return [draw(st.integers(0, d - 1)), draw(st.sampled_from(GAINS)), draw(st.sampled_from([1.0, 2.0, 5.0, 8.0])),
                grow(depth + 1), grow(depth + 1)]
    if draw(st.integers(0, 7)) == 0:
        return 0
    return grow(0)


@st.composite
def synth_specs(draw, libs=("xgb", "lgb"), max_trees=4, max_depth=4, names=None, lo=1, hi=4, need_split=False):
    names = draw(tree_names(lo, hi)) if names is None else names
    trees = [draw(synth_trees(len(names), max_depth)) for _ in range(draw(st.integers(1, max_trees)))]
    if need_split and all(t == 0 for t in trees):
        trees[0] = [0, 1.0, 1.0, 0, 0]
    return dict(lib=draw(st.sampled_from(list(libs))), form=draw(st.sampled_from(["booster", "handler"])), names=names, trees=trees,
                order=draw(st.lists(st.integers(0, 5), max_size=5)))


def growths(max_trees=4, max_depth=5, min_trees=1, min_depth=2, stop=(0, 5)):
    return st.fixed_dictionaries(dict(r=st.integers(0, 10 ** 6), n=st.integers(min_trees, max_trees),
                                      depth=st.integers(min_depth, max_depth), stop=st.integers(*stop)))


WIDE_NAMES = SAFE_NAMES + ["v%d" % i for i in range(24)]
MANY = dict(max_trees=130, min_trees=9, max_depth=3, min_depth=2, stop=(1, 5), hi=8)     # many small trees
BUSHY = dict(max_trees=3, max_depth=8, min_depth=5, stop=(1, 4), hi=6)                   # few large trees
LONG = dict(max_trees=2, max_depth=14, min_depth=9, stop=(3, 5), hi=4)                   # few deep trees
WIDE = dict(max_trees=12, max_depth=4, stop=(0, 3), lo=9, hi=26, pool=WIDE_NAMES)        # many features


@st.composite
def grown_specs(draw, libs=("xgb", "lgb"), names=None, lo=2, hi=5, pool=None, **kw):
    """synthesised ensembles described by a seed: larger than those drawn node by node"""
    names = draw(tree_names(lo, hi, pool)) if names is None else names
    return dict(lib=draw(st.sampled_from(list(libs))), form=draw(st.sampled_from(["booster", "handler"])), names=names, tr=draw(growths(**kw)),
                order=draw(st.lists(st.integers(0, 5), max_size=5)))


@st.composite
def grown_forest_specs(draw, names=None, lo=2, hi=5, pool=None, **kw):
    from lib.gen import NAMES
    names = draw(tree_names(lo, hi, pool or NAMES)) if names is None else names
    return dict(cls=draw(st.sampled_from(sorted(FORESTS))), names=names, tr=draw(growths(**kw)),
                order=draw(st.one_of(st.none(), st.lists(st.integers(0, 5), max_size=5))))


@st.composite
def trained_specs(draw, libs=("xgb", "lgb"), names=None, max_rounds=4):
    lib = draw(st.sampled_from(list(libs)))
    unnamed = names is None and draw(st.integers(0, 4)) == 0        # trained on a plain array, the library names the columns
    names = draw(tree_names()) if names is None else names
    if unnamed:
        names = [("f%d" if lib == "xgb" else "Column_%d") % i for i in range(len(names))]
    return dict(lib=lib, form=draw(st.sampled_from(["booster", "wrapper", "handler", "wrapper"])), unnamed=unnamed,
                boosting=draw(st.sampled_from(["gbdt", "gbdt", "gbdt", "dart", "rf"])), parallel=draw(st.sampled_from([1, 1, 1, 1, 2])),
                cats=draw(st.sampled_from([0, 0, 0, 1, 2])), names=names, rows=draw(st.integers(12, 60)), lev=[draw(st.integers(2, 9)) for _ in names],
                r=draw(st.integers(0, 10 ** 6)), mix=draw(st.integers(0, 30)), rounds=draw(st.integers(1, max_rounds)),
                depth=draw(st.integers(1, 4)), policy=draw(st.sampled_from(["depthwise", "lossguide"])),
                obj=draw(st.sampled_from(["reg", "bin", "multi"])), booster=draw(st.sampled_from(["gbtree", "gbtree", "dart"])))


# ---------------------------------------------------------------- forests

FORESTS = {"rfr": RandomForestRegressor, "rfc": RandomForestClassifier, "etr": ExtraTreesRegressor, "etc": ExtraTreesClassifier}


def synth_tree(tree, order, d):
    """a scikit-learn tree structure with the given shape; order None numbers the nodes depth first"""
    if order is None:
        nodes = []

        def go(t, parent):
            i = len(nodes)
            nodes.append([t, -1, -1, parent])
            if t != 0:
                nodes[i][1] = go(t[3], i)
                nodes[i][2] = go(t[4], i)
            return i
        go(tree, None)
    else:
        nodes = expand_order(tree, order)
    arr = np.zeros(len(nodes), dtype=NODE_DTYPE)
    depth = [0] * len(nodes)
    for i, (t, l, r, p) in enumerate(nodes):
        split = t != 0
        depth[i] = 0 if p is None else depth[p] + 1
        arr[i]["left_child"], arr[i]["right_child"] = (l, r) if split else (-1, -1)
        arr[i]["feature"] = t[0] if split else -2
        arr[i]["threshold"] = 0.5 if split else -2.0
        arr[i]["n_node_samples"], arr[i]["weighted_n_node_samples"] = 1, 1.0
    out = Tree(d, np.array([1], dtype=np.intp), 1)
    out.__setstate__(dict(max_depth=max(depth), node_count=len(nodes), nodes=arr, values=np.zeros((len(nodes), 1, 1))))
    return out


def build_forest(spec):
    if "tr" in spec:
        spec = dict(spec, shapes=grow(spec["tr"], len(spec["names"])))
    if "shapes" in spec:
        d = len(spec["names"])
        X = pd.DataFrame(np.zeros((2, d)), columns=spec["names"])
        m = FORESTS[spec["cls"]](n_estimators=len(spec["shapes"]), n_jobs=1, random_state=0).fit(X, [0, 1])
        for est, shape in zip(m.estimators_, spec["shapes"]):
            est.tree_ = synth_tree(shape, spec["order"], d)
        return m
    X, y = table(spec)
    yy = labels(y, spec["classes"]) if spec["cls"] in ("rfc", "etc") else y
    kw = dict(n_estimators=spec["trees"], max_depth=spec["depth"], max_leaf_nodes=spec["mln"], max_features=spec["mf"],
              min_samples_leaf=spec["msl"], random_state=spec["r"] % 1000, n_jobs=1, bootstrap=spec.get("boot", True))
    return FORESTS[spec["cls"]](**kw).fit(X, yy)


@st.composite
def forest_specs(draw, names=None, max_trees=5, lo=2, hi=5, pool=None, max_rows=60):
    from lib.gen import NAMES
    names = draw(tree_names(lo, hi, pool or NAMES)) if names is None else names
    return dict(cls=draw(st.sampled_from(sorted(FORESTS))), names=names, rows=draw(st.integers(4, max_rows)),
                lev=[draw(st.integers(1, 9)) for _ in names], r=draw(st.integers(0, 10 ** 6)), mix=draw(st.integers(0, 30)),
                trees=draw(st.integers(1, max_trees)), depth=draw(st.sampled_from([None, 1, 2, 3, 5])),
                mln=draw(st.sampled_from([None, None, 3, 5, 8])), mf=draw(st.sampled_from([1.0, 1, "sqrt"])),
                msl=draw(st.sampled_from([1, 1, 3])), classes=draw(st.integers(2, 3)), boot=draw(st.booleans()))


@st.composite
def synth_forest_specs(draw, names=None, max_trees=3, lo=2, hi=4, max_depth=4, pool=None):
    from lib.gen import NAMES
    names = draw(tree_names(lo, hi, pool or NAMES)) if names is None else names
    return dict(cls=draw(st.sampled_from(sorted(FORESTS))), names=names,
                shapes=[draw(synth_trees(len(names), max_depth)) for _ in range(draw(st.integers(1, max_trees)))],
                order=draw(st.one_of(st.none(), st.lists(st.integers(0, 5), max_size=5))))


class Node:
    def __init__(self, feature, depth, left=None, right=None):
        self.feature, self.depth, self.left, self.right = feature, depth, left, right


def forest_trees(model):
    """Forest as linked nodes (feature index, or None for leaves)."""
    out = []
    for est in model.estimators_:
        t = est.tree_

        def go(i, depth):
            if t.children_left[i] == -1:
                return Node(None, depth)
            return Node(int(t.feature[i]), depth, go(t.children_left[i], depth + 1), go(t.children_right[i], depth + 1))
        out.append(go(0, 0))
    return out


def splits(node):
    if node.feature is None:
        return []
    return [node] + splits(node.left) + splits(node.right)


def cmd_reference(model):
    """{(root feature, other feature): (mean value or None, occurrences)} by the definition in C20"""
    d = len(model.feature_names_in_)
    trees = forest_trees(model)
    out = {}
    info = []
    for t in trees:
        by = {}
        for s in splits(t):
            by.setdefault(s.feature, []).append(s)
        info.append(by)
    for a in range(d):
        for b in range(d):
            if a == b:
                continue
            vals, occ = [], 0
            for by in info:
                if a not in by or b not in by:
                    continue
                top = min(s.depth for s in by[a])
                best, found = None, False
                for s in by[a]:
                    if s.depth != top:
                        continue
                    below = [x.depth for x in splits(s.left) + splits(s.right) if x.feature == b]
                    if below:
                        v = min(below) - s.depth - 1
                        found = True
                    else:
                        x = s
                        while x.feature is not None:
                            x = x.right
                        v = x.depth - s.depth
                    best = v if best is None else min(best, v)
                vals.append(best)
                occ += found
            out[(a, b)] = (sum(vals) / len(vals) if vals else None, occ)
    names = list(model.feature_names_in_)
    return {(names[a], names[b]): v for (a, b), v in out.items()}


def min_depth_reference(model):
    names = list(model.feature_names_in_)
    firsts = {}
    for t in forest_trees(model):
        by = {}
        for s in splits(t):
            by[s.feature] = min(by.get(s.feature, 10 ** 9), s.depth)
        for f, v in by.items():
            firsts.setdefault(names[f], []).append(v)
    return {f: sum(v) / len(v) for f, v in firsts.items()}
