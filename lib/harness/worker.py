"""Worker: runs a share of the cases of one property, writes a JSON report."""
import hashlib
import importlib
import json
import os
import sys
import time
import warnings

warnings.simplefilter("ignore")


def main():
    spec = json.loads(sys.argv[1])
    t0 = time.time()
    report = {"violations": [], "inconclusive": [], "cases": {}, "checks": 0, "events": {},
              "signatures": {}, "samples": [], "known": [], "error": None, "skipped": 0}
    try:
        from harness import core

        importlib.import_module("checks." + spec["module"])
        prop = spec["property"]
        names = list(core.SCENARIOS.get(prop, {}))
        if not names:
            raise RuntimeError("no scenarios for %s" % prop)
        jobs = []
        if spec.get("cases"):
            jobs = [tuple(c) for c in spec["cases"]]
        else:
            for name in names:
                n = core.SCENARIOS[prop][name][spec["tier"]]
                scale = spec.get("scale", 1.0)
                n = max(core.SCENARIOS[prop][name]["min"], int(n * scale))
                for i in range(n):
                    jobs.append((i, name))
            # interleave the scenarios so that a deadline cuts them evenly
            totals = {}
            for i, name in jobs:
                totals[name] = totals.get(name, 0) + 1
            jobs.sort(key=lambda j: ((j[0] + 0.5) / totals[j[1]], j[1]))
            jobs = [(name, i) for i, name in jobs]
            jobs = jobs[spec["worker"]:: spec["workers"]]
        per_label = {}
        for name, i in jobs:
            if time.time() - t0 > spec["deadline"]:
                report["skipped"] += 1
                continue
            status, info, mon = core.run_case(prop, name, spec["seed"], i, spec["tier"])
            c = report["cases"].setdefault(name, {"ok": 0, "violation": 0, "inconclusive": 0})
            c[status] += 1
            report["checks"] += mon.checks
            for k, v in mon.events.items():
                report["events"][k] = report["events"].get(k, 0) + v
            sig = report["signatures"].setdefault(name, {})
            if mon.signatures:
                whole = " ".join(sorted(mon.signatures))
                whole = hashlib.sha1(whole.encode()).hexdigest()[:16]
                sig[whole] = sig.get(whole, 0) + 1
            report["known"].extend(mon.known)
            if status == "ok" and len(report["samples"]) < 3 and mon.notes:
                report["samples"].append({"scenario": name, "case": i, "observed": mon.notes})
            if status == "violation":
                key = (name, info["label"])
                if spec.get("failfast") and list(key) not in spec["failfast"]:
                    report["violations"].append(info)
                    break
                per_label[key] = per_label.get(key, 0) + 1
                if per_label[key] <= 2:
                    report["violations"].append(info)
                if len(per_label) > 40:
                    break
            elif status == "inconclusive":
                if len(report["inconclusive"]) < 5:
                    report["inconclusive"].append(info)
    except BaseException as err:  # import failures of the code under test or of the harness
        import traceback

        report["error"] = traceback.format_exc()[-3000:]
        try:
            from harness import core as _c

            report["error_gap"] = bool(_c.stub_gap(err))
        except BaseException:
            report["error_gap"] = True
    report["wall"] = time.time() - t0
    tmp = spec["out"] + ".part"
    with open(tmp, "w") as f:
        json.dump(report, f)
    os.rename(tmp, spec["out"])
    sys.stdout.flush()
    os._exit(0)


main()
