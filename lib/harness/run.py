"""Entry point of every check.

  run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
"""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = os.path.dirname(HERE)
ROOT = os.path.dirname(LIB)
PY = "/opt/venv/bin/python"


def load(path, default):
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return default


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS") or 8))
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    repo = os.environ.get("VERIF_REPO", "/repo")
    index = load(os.path.join(LIB, "checks", "index.json"), {})
    if args.property not in index:
        print("unknown property", args.property)
        return 2
    module = index[args.property]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.property)
    evidence_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evidence_dir, "replay"), exist_ok=True)
    try:
        code, evidence = drive(args, tier, repo, module, scratch, evidence_dir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if evidence is not None:
        evidence["wall_s"] = round(time.time() - t0, 2)
        path = os.path.join(evidence_dir, args.property + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1, sort_keys=True)
        os.rename(path + ".tmp", path)
    return code


def drive(args, tier, repo, module, scratch, evidence_dir):
    prop = args.property
    env = dict(os.environ)
    env.pop("PYTHONSTARTUP", None)
    paths = [os.path.join(LIB, "stubs"), LIB, repo]
    env.update(
        PYTHONPATH=os.pathsep.join(paths),
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TMPDIR=scratch,
        HOME=scratch,
        VERIF_REPO=repo,
        VERIF_SCRATCH=scratch,
    )
    workers = max(1, args.workers)
    deadline = 100 if tier == "quick" else 720
    cases = None
    seed = args.seed
    if args.replay:
        rep = load(args.replay, None)
        if rep is None:
            print("cannot read", args.replay)
            return 2, None
        cases, workers, seed, tier = [(rep["scenario"], rep["index"])], 1, rep["base_seed"], rep["tier"]
    procs = []
    for w in range(workers):
        out = os.path.join(scratch, "out%d.json" % w)
        spec = {
            "property": prop, "module": module, "tier": tier, "seed": seed, "worker": w,
            "workers": workers, "deadline": deadline, "out": out, "cases": cases, "scale": args.scale,
        }
        log = open(os.path.join(scratch, "log%d" % w), "wb")
        cwd = os.path.join(scratch, "w%d" % w)
        os.makedirs(cwd)
        procs.append(
            (
                subprocess.Popen(
                    [PY, "-m", "harness.worker", json.dumps(spec)],
                    env=env, cwd=cwd, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                ),
                out,
                os.path.join(scratch, "log%d" % w),
            )
        )
    hard = time.time() + deadline + 240
    reports, broken = [], []
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        rep = load(out, None)
        if rep is None:
            with open(log, "rb") as f:
                broken.append("worker ended with %s: %s" % (p.returncode, f.read()[-1500:].decode("utf8", "replace")))
        else:
            reports.append(rep)
    violations, inconclusive, errors, known_seen = [], [], [], []
    totals, events, signatures, samples = {}, {}, {}, []
    checks = skipped = 0
    for rep in reports:
        violations += rep["violations"]
        inconclusive += rep["inconclusive"]
        known_seen += rep["known"]
        if rep["error"]:
            errors.append(rep)
        for k, v in rep["cases"].items():
            t = totals.setdefault(k, {"ok": 0, "violation": 0, "inconclusive": 0})
            for s in v:
                t[s] += v[s]
        for k, v in rep["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in rep["signatures"].items():
            signatures.setdefault(k, set()).update(v)
        samples += rep["samples"]
        checks += rep["checks"]
        skipped += rep["skipped"]
    # ------------------------------------------------------ known findings
    findings = [f for f in load(os.path.join(ROOT, "known_findings.json"), {}).get("findings", [])
                if f["property"] == prop and f.get("status") == "known"]
    by_key = {(f["scenario"], f["label"]): f for f in findings}
    reported_known, real = {}, []
    for v in violations:
        f = by_key.get((v["scenario"], v["label"]))
        if f is not None:
            reported_known[f["id"]] = f
        else:
            real.append(v)
    for rep in errors:
        # the code under test cannot even be imported by the workload
        if not rep.get("error_gap"):
            real.append({"scenario": "import", "label": "cannot load", "message": rep["error"],
                         "index": 0, "base_seed": seed, "notes": {}})
        else:
            inconclusive.append({"scenario": "import", "label": "load", "message": rep["error"]})
    for f in reported_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    seen = set()
    for v in sorted(real, key=lambda v: (v["scenario"], v["label"], v["index"])):
        key = (v["scenario"], v["label"])
        if key in seen or len(seen) >= 12:
            continue
        seen.add(key)
        h = hashlib.sha256(repr(key).encode()).hexdigest()[:10]
        path = os.path.join(evidence_dir, "replay", "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  scenario=%s case=%s %s" % (v["scenario"], v["index"], v["label"]))
        for line in v["message"].strip().splitlines()[-6:]:
            print("    " + line)
    n_cases = sum(sum(t.values()) for t in totals.values())
    distinct = sum(len(s) for s in signatures.values())
    ok_cases = sum(t["ok"] for t in totals.values())
    code = 1 if real else 0
    why = None
    if not real and not args.replay:
        if broken:
            why = broken[0]
        elif inconclusive:
            why = inconclusive[0]["message"]
        elif checks == 0 or distinct == 0:
            why = "the monitors observed nothing"
        elif skipped > n_cases:
            why = "deadline: %d cases not reached" % skipped
        if why:
            code = 2
            print("INCONCLUSIVE property=%s %s" % (prop, why))
    print(
        "%s tier=%s seed=%s cases=%d ok=%d checks=%d distinct=%d events=%d skipped=%d"
        % (prop, tier, seed, n_cases, ok_cases, checks, distinct, sum(events.values()), skipped)
    )
    if args.replay:
        return code, None
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "verdict": {0: "held", 1: "violated", 2: "inconclusive"}[code],
        "coverage": {
            "evaluations": n_cases,
            "monitor_decisions": checks,
            "distinct_nontrivial": distinct,
            "rule": "one evaluation is one generated case: the real code is driven on a random input and "
            "the monitors decide on what was observed (monitor_decisions counts these decisions); a case "
            "counts as non-trivial when the monitors recorded its behaviour (input class, branch and "
            "outcome), and distinct ones are counted by that record",
            "samples": samples[:6] or [{"scenario": k, "case": 0} for k in list(totals)[:3]],
            "cases": n_cases,
            "cases_not_reached": skipped,
            "per_scenario": {
                k: dict(v, distinct=len(signatures.get(k, ()))) for k, v in sorted(totals.items())
            },
            "events": dict(sorted(events.items())),
        },
        "known_findings": sorted(reported_known),
    }
    return code, evidence


sys.exit(main())
