"""Writes MANIFEST.json from properties.jsonl and the checks present in checks/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "stateful property-based testing with fault injection against a brute-force model (Hypothesis)",
    "C02": "property-based differential testing against a brute-force reference (Hypothesis)",
    "C03": "property-based differential testing against a brute-force reference, over sequences of fits (Hypothesis)",
    "C04": "property-based differential testing against a brute-force reference (Hypothesis)",
    "C05": "property-based differential testing against a brute-force reference (Hypothesis)",
    "C06": "property-based differential testing against a brute-force reference (Hypothesis)",
    "C07": "property-based testing with models of known interaction structure (Hypothesis)",
    "C08": "property-based testing: membership in the exhaustively enumerated outcome set plus expectation test (Hypothesis)",
    "C09": "property-based testing: membership in the exhaustively enumerated outcome set plus expectation test (Hypothesis)",
    "C10": "property-based differential testing of metrics (Hypothesis)",
    "C11": "property-based testing with row identities, uniformity statistics over seeds (Hypothesis)",
    "C12": "metamorphic property-based testing over interleaved histories (Hypothesis)",
    "C13": "property-based testing of validity predicates over all result tables (Hypothesis)",
    "C14": "stateful property-based testing: shared calculator against fresh objects (Hypothesis)",
    "C15": "metamorphic property-based testing (Hypothesis)",
    "C16": "property-based testing with recording models and before/after snapshots (Hypothesis)",
    "C17": "property-based differential testing on trained and synthesised ensembles (Hypothesis)",
    "C18": "property-based differential testing on trained and synthesised ensembles (Hypothesis)",
    "C19": "property-based testing of accepted and rejected requests (Hypothesis)",
    "C20": "property-based differential testing on trained forests against a recursive reference (Hypothesis)",
    "C21": "property-based differential testing on trained forests against a recursive reference (Hypothesis)",
    "C22": "stateful property-based testing: refitted object against a fresh one (Hypothesis)",
    "C23": "property-based differential and metamorphic testing of comparisons (Hypothesis)",
    "C24": "property-based testing of lookups against the tables (Hypothesis)",
    "C25": "property-based testing of drawn artists against the tables (Hypothesis)",
    "C26": "property-based testing of plot sequences with before/after snapshots (Hypothesis)",
    "C27": "property-based testing of drawn artists against brute-force and scikit-learn references (Hypothesis)",
    "C28": "property-based testing of drawn artists against a reference path (Hypothesis)",
    "C29": "property-based testing of drawn artists against the tables (Hypothesis)",
    "C30": "property-based testing of drawn artists against the requested options (Hypothesis)",
    "C31": "property-based testing of recorded model queries against the batch size (Hypothesis)",
    "C33": "property-based testing against the packages' own model dumps (Hypothesis)",
    "C32": "property-based testing of call sequences with captured output (Hypothesis)",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
    checks, missing = [], []
    for p in props:
        pid = p["id"]
        if not os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            missing.append(dict(property=pid, reason="check under construction"))
            continue
        cmd = f"/opt/venv/bin/python run.py {pid}"
        checks.append(dict(
            property=pid, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, evidence_file=f"evidence/{pid}.json",
            technique=TECH[pid], level="exploration",
            level_note="Searches generated cases (seeded, shrunk, replayable) against an explicit oracle; shows no violation on what "
                       "was explored, not absence. Trusts numpy, pandas, matplotlib, scikit-learn, XGBoost and LightGBM, and the "
                       "reference computations in /verif/lib."))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python lib/bootstrap.py", checks=checks, not_applicable=missing,
             notes="No hooks in /repo are needed; all checks use the public interface. run.py --replay FILE replays a failure.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks;", len(missing), "missing")


if __name__ == "__main__":
    main()
