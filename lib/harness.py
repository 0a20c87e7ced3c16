"""Runs the generated checks of one property.

A check module checks/<id>.py defines SUBTESTS, a list of Sub(name, strategy, fn, quick, thorough). The strategy yields
JSON-able case descriptions, fn(case, ctx) builds the objects, runs artemis and raises Violation when the oracle
disagrees. Cases are searched by Hypothesis in parallel shards whose seeds derive from VERIF_SEED; a failing case is
shrunk and written out as JSON, which `run.py --replay` runs again without Hypothesis.
"""
import hashlib
import importlib
import io
import json
import multiprocessing
import os
import queue as queue_mod
import sys
import time
import traceback
import warnings
from collections import Counter
from contextlib import redirect_stderr

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ARTEMIS = os.path.join(REPO, "artemis") + os.sep
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class Violation(Exception):
    """The property does not hold for the case at hand."""


class StopSearch(BaseException):
    """Ends shrinking when its time is used up."""


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, cap=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.cap = cap          # seconds for this subtest in one shard (quick tier); None = no own limit


class Ctx:
    """What a check function reports about the case it runs."""

    def __init__(self):
        self.is_nontrivial = False
        self.events = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def event(self, label):
        self.events.append(str(label))


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False)


def in_artemis(tb):
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(ARTEMIS):
            return True
        tb = tb.tb_next
    return False


def evaluate(sub, case):
    """-> (ctx, None) or (ctx, violation message); lack of resources is an error of the harness."""
    import matplotlib.pyplot as plt
    ctx = Ctx()
    case = json.loads(dumps(case))
    err = io.StringIO()
    try:
        with warnings.catch_warnings(), redirect_stderr(err):
            warnings.simplefilter("ignore")
            sub.fn(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except (MemoryError, KeyboardInterrupt, OSError, ImportError):
        raise
    except Exception as e:
        if in_artemis(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(ARTEMIS)][-1]
            return ctx, (f"{type(e).__name__}: {e} raised from {os.path.relpath(last.filename, REPO)} "
                         f"({last.name}) on a valid request")
        # the oracle reads what artemis returned; results it cannot read are not what the property promises
        last = traceback.extract_tb(e.__traceback__)[-1]
        return ctx, f"results cannot be read: {type(e).__name__}: {e} at {os.path.basename(last.filename)}:{last.lineno} ({last.name})"
    finally:
        plt.close("all")


def load(pid):
    import artemis
    assert os.path.abspath(artemis.__file__).startswith(ARTEMIS), artemis.__file__
    mod = importlib.import_module("checks." + pid.lower())
    return mod


def shard_seed(seed, shard, name):
    h = hashlib.sha256(f"{seed}/{shard}/{name}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def make_body(sub, state, res, tier, deadline, shrink_s, stop):
    def body(case):
        now = time.time()
        if state["best"] is None:
            if now > deadline or stop.is_set() or (sub.cap and tier == "quick" and now - state["t0"] > sub.cap):
                res["skipped"] += 1
                return
        elif now - state["t_fail"] > shrink_s:
            raise StopSearch()
        text = dumps(case)
        ctx, msg = evaluate(sub, case)
        if state["best"] is None:
            h = hashlib.sha256((sub.name + text).encode()).hexdigest()[:16]
            res["evaluations"] += 1
            res["per_sub"][sub.name] += 1
            new = h not in res["hashes"]
            res["hashes"].add(h)
            if ctx.is_nontrivial:
                res["nontrivial"].add(h)
                if new and sum(s["subtest"] == sub.name for s in res["samples"]) < 2 and len(text) < 1500:
                    res["samples"].append(dict(subtest=sub.name, case=case))
            for e in ctx.events:
                res["events"][sub.name + ": " + e] += 1
        if msg is not None:
            if state["best"] is None:
                state["t_fail"] = time.time()
            if state["best"] is None or (len(text), text) < (len(state["best"]), state["best"]):
                state["best"], state["msg"] = text, msg
            raise Violation(msg)

    return body


def run_shard(pid, tier, seed, shard, nshards, deadline, shrink_s, stop, out):
    """One worker: runs its share of every subtest; puts one result dict into `out`."""
    res = dict(shard=shard, evaluations=0, skipped=0, hashes=set(), nontrivial=set(), events=Counter(), samples=[],
               failure=None, error=None, per_sub=Counter())
    try:
        from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
        mod = load(pid)
        k = shard % len(mod.SUBTESTS)       # workers start at different subtests, so that no subtest is always last
        for sub in mod.SUBTESTS[k:] + mod.SUBTESTS[:k]:
            total = sub.quick if tier == "quick" else sub.thorough
            mine = total // nshards + (1 if shard < total % nshards else 0)
            if mine == 0 or stop.is_set():
                continue
            state = dict(best=None, msg=None, t_fail=None, t0=time.time())

            test = settings(max_examples=mine, database=None, deadline=None, derandomize=False, print_blob=False,
                            report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate, Phase.shrink])(
                given(sub.strategy)(make_body(sub, state, res, tier, deadline, shrink_s, stop)))
            test = hseed(shard_seed(seed, shard, sub.name))(test)
            try:
                test()
            except (Violation, StopSearch):
                pass
            except Exception as e:
                if state["best"] is None:
                    raise
                if type(e).__name__ not in ("Flaky", "FlakyFailure", "FlakyReplay", "ExceptionGroup"):
                    raise
            if state["best"] is not None:
                stop.set()
                res["failure"] = dict(property=pid, subtest=sub.name, case=json.loads(state["best"]), message=state["msg"])
                break
    except BaseException:
        res["error"] = traceback.format_exc()
        stop.set()
    out.put(res)


def run_corpus(pid, mod):
    """Saved cases (shrunk failures of earlier defects and planted changes), run without Hypothesis."""
    path = os.path.join(ROOT, "corpus", pid + ".jsonl")
    n, failures = 0, []
    nontrivial = set()
    if os.path.exists(path):
        subs = {s.name: s for s in mod.SUBTESTS}
        for line in open(path, encoding="utf-8"):
            if not line.strip():
                continue
            d = json.loads(line)
            if d["subtest"] not in subs:
                continue
            n += 1
            ctx, msg = evaluate(subs[d["subtest"]], d["case"])
            if ctx.is_nontrivial:
                nontrivial.add(hashlib.sha256((d["subtest"] + dumps(d["case"])).encode()).hexdigest()[:16])
            if msg is not None:
                failures.append(dict(property=pid, subtest=d["subtest"], case=d["case"], message=msg))
    return n, nontrivial, failures


def write_replay(fail):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(dumps([fail["subtest"], fail["case"]]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{fail['property']}-{fail['subtest']}-{h}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(fail, f, indent=1, sort_keys=True, ensure_ascii=False)
    return path


def known_findings(pid):
    """Lines 'known: property=<id> subtest=<name> case=<sha256 prefix> <what fails>' of KNOWN_FINDINGS.txt."""
    found = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(path, encoding="utf-8"):
        if line.startswith("known: property=" + pid + " "):
            found.append(line[len("known: "):].strip())
    return found


def run(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    mod = load(pid)
    budget = float(os.environ.get("VERIF_BUDGET_S", "600" if tier == "quick" else "7200"))
    shrink_s = 40 if tier == "quick" else 300
    n_corpus, corpus_nt, failures = run_corpus(pid, mod)
    errors = []
    results = []
    if not failures:
        mp = multiprocessing.get_context("fork")
        out, stop = mp.Queue(), mp.Event()
        procs = [mp.Process(target=run_shard, daemon=True, args=(pid, tier, seed, s, NPROC, t0 + budget, shrink_s, stop, out))
                 for s in range(NPROC)]
        for p in procs:
            p.start()
        alive = dict(enumerate(procs))
        while alive:
            try:
                r = out.get(timeout=1)
                results.append(r)
                alive.pop(r["shard"], None)
                continue
            except queue_mod.Empty:
                pass
            for s, p in list(alive.items()):
                if not p.is_alive() and out.empty():
                    time.sleep(0.3)
                    if out.empty():
                        errors.append(f"shard {s} ended with code {p.exitcode}")
                        alive.pop(s)
            if time.time() - t0 > budget + shrink_s + 120:
                for s, p in alive.items():
                    p.kill()
                    errors.append(f"shard {s} did not end in time")
                alive = {}
        for p in procs:
            p.join(timeout=5)
    results.sort(key=lambda r: r["shard"])
    failures += [r["failure"] for r in results if r["failure"]]
    errors += [r["error"] for r in results if r["error"]]
    hashes, nontrivial, events, per_sub = set(), set(corpus_nt), Counter(), Counter()
    samples, evaluations, skipped = [], n_corpus, 0
    for r in results:
        hashes |= r["hashes"]
        nontrivial |= r["nontrivial"]
        events += r["events"]
        per_sub += r["per_sub"]
        evaluations += r["evaluations"]
        skipped += r["skipped"]
        for s in r["samples"]:
            if sum(x["subtest"] == s["subtest"] for x in samples) < 2:
                samples.append(s)
    if failures and not samples:
        samples = [dict(subtest=f["subtest"], case=f["case"]) for f in failures[:2]]
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontrivial), rule=mod.RULE, samples=samples,
                      distinct_cases=len(hashes), corpus_cases=n_corpus, skipped_over_time_budget=skipped,
                      cases_per_subtest=dict(sorted(per_sub.items())), classes=dict(sorted(events.items()))),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(failures))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    for line in known_findings(pid):
        print("KNOWN-FINDING: " + line)
    if failures:
        best = min(failures, key=lambda f: len(dumps(f["case"])))
        path = write_replay(best)
        print(f"{pid} {best['subtest']}: {best['message']}"[:2000])
        print("case: " + dumps(best["case"])[:2000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("harness error:\n" + "\n".join(errors)[-6000:])
        return 2
    if evaluations == 0:
        print("harness error: nothing was evaluated")
        return 2
    print(f"{pid}: held on {evaluations} cases ({len(nontrivial)} distinct non-trivial) in {evidence['wall_s']} s")
    return 0


def replay(path):
    d = json.load(open(path, encoding="utf-8"))
    mod = load(d["property"])
    sub = {s.name: s for s in mod.SUBTESTS}[d["subtest"]]
    ctx, msg = evaluate(sub, d["case"])
    if msg is None:
        print(f"{d['property']} {d['subtest']}: holds on the replayed case")
        return 0
    print(f"{d['property']} {d['subtest']}: {msg}")
    print(f"VIOLATION property={d['property']} replay={path}")
    return 1
