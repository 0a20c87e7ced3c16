"""C12: equal random_state and equal calls give identical results, whatever happens around them."""
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from lib import gen, harness, repro
from lib.harness import Sub
from lib.oracle import require

RULE = ("random histories of 1-3 calls on one object of each seedable method, run on two objects with the same random_state that are "
        "created at different moments and interleaved with reseeding and use of global generators, fits of other objects and calls of "
        "both; every sample and table compared bit for bit. In addition batches of histories are run in two fresh processes with "
        "different hash seeds, global seeds and order of histories. Non-trivial: the history draws random numbers (sampling of a real "
        "subset or shuffling).")
NOISE = ["npseed", "pyseed", "npdraw", "other", "other_same", "none", "create"]


@st.composite
def cases(draw):
    case = draw(repro.histories())
    k = len(case["calls"])
    # schedule: which of the two objects runs its next call, with a disturbance before it
    sched = draw(st.permutations([0] * k + [1] * k))
    return dict(case, sched=[[o, draw(st.sampled_from(NOISE))] for o in sched], early=draw(st.booleans()),
                intruder=draw(repro.histories(max_calls=1)))


def random_history(case):
    for c in case["calls"]:
        rows = case["pool"][c["d"]]["data"]["rows"]
        if case["method"].startswith(("sejong", "perm")) or (c["n"] is not None and c["n"] < rows):
            return True
    return False


def disturb(kind, case, k):
    if kind == "npseed":
        np.random.seed(k)
    elif kind == "pyseed":
        random.seed(k)
    elif kind == "npdraw":
        np.random.random(k + 1)
        random.random()
    elif kind.startswith("other"):
        i = case["intruder"]
        m = repro.create(i, case["rs"] if kind == "other_same" else None)
        repro.call(i, m, repro.realise(i), i["calls"][0])
    elif kind == "create":
        repro.create(case)


def check(case, ctx):
    state = random.getstate(), np.random.get_state()
    try:
        real = [repro.realise(case), repro.realise(case)]
        objects = [repro.create(case), repro.create(case)] if case["early"] else [None, None]
        results, done = [[], []], [0, 0]
        for k, (o, noise) in enumerate(case["sched"]):
            disturb(noise, case, k)
            if objects[o] is None:
                objects[o] = repro.create(case)
            results[o].append(repro.call(case, objects[o], real[o], case["calls"][done[o]]))
            done[o] += 1
    finally:
        random.setstate(state[0])
        np.random.set_state(state[1])
    for i, (a, b) in enumerate(zip(*results)):
        for part, (x, y) in enumerate(zip(a, b)):
            require(x == y, f"call {i + 1} of {case['method']} with random_state {case['rs']} gave {str(x)[:300]} and {str(y)[:300]} "
                            f"(part {part})")
    ctx.nontrivial(random_history(case))
    ctx.event(case["method"])


def digests(cases, hashseed, noise, rev):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), REPRO_NOISE=str(noise),
               PYTHONPATH=os.pathsep.join([harness.ROOT, harness.REPO, os.path.join(harness.ROOT, ".deps")]))
    env.pop("REPRO_REVERSED", None)
    if rev:
        env["REPRO_REVERSED"] = "1"
    p = subprocess.run([sys.executable, os.path.join(harness.ROOT, "lib", "repro.py")], input=json.dumps(cases), env=env,
                       capture_output=True, text=True, timeout=200)
    if p.returncode != 0:
        last = [l for l in p.stderr.splitlines() if l.strip()]
        require(os.sep + "artemis" + os.sep not in p.stderr, "call failed in a fresh process: " + (last[-1] if last else "?"))
        raise RuntimeError(p.stderr)
    return json.loads(p.stdout.split("DIGESTS")[1])


def check_process(case, ctx):
    a, b = digests(case["histories"], 1, 5, False), digests(case["histories"], case["hs"], 6, True)
    for h, x, y in zip(case["histories"], a, b):
        require(x == y, f"results of {h['method']} with random_state {h['rs']} differ between processes: {json.dumps(h)[:400]}")
    ctx.nontrivial(any(random_history(h) for h in case["histories"]))
    ctx.event(f"{len(case['histories'])} histories")


SUBTESTS = [
    Sub("interleaved", cases(), check, 700, 12000),
    Sub("processes", st.builds(lambda h, s: dict(histories=h, hs=s), st.lists(repro.histories(), min_size=6, max_size=12),
                               st.integers(2, 1000)), check_process, 16, 160),
]
