"""Decides one property:  check.py PID [--tier T] [--seed N] [--replay FILE]

exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tlc                                            # noqa: E402
from plan import PLAN                                  # noqa: E402
from tlc import Machinery, ROOT                        # noqa: E402

PY = "/opt/venv/bin/python"


def drive(pid, tier, seed, out, export, only=None, timeout=600):
    """Runs the driver on the code; returns None or the text of its failure."""
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(out, "pyc"), PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    cmd = [PY, "-B", os.path.join(HERE, "drive.py"), pid, tier, str(seed), out, export or "-"]
    if only is not None:
        cmd += ["--only", str(only)]
    try:
        p = subprocess.run(cmd, cwd=out, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "driver timed out"
    return None if p.returncode == 0 else p.stdout[-3000:]


def validate(path, workers, module, end):
    r = tlc.run(module + ".tla", module + ".cfg", env={"TRACE_FILE": path}, workers=workers, timeout=max(end - time.time(), 60),
                grace=150 if end - time.time() < 1000 else 1500)
    done = tlc.payloads(r, "DONE")
    bad = tlc.payloads(r, "BAD")
    if r["cut"]:                  # results so strange that their judgement takes too long: what was judged counts
        return r, done, bad
    if r["rc"] != 0 or not any("No error has been found" in l for l in r["lines"]):
        if bad:
            r["cut"] = True
            return r, done, bad
        raise Machinery("TLC failed on %s:\n%s" % (path, "\n".join([v for v in r["lines"] if not v.startswith("BAD")][-40:])))
    return r, done, bad


def model_check(c, workers):
    """Checks one configuration; returns (run, exported data)."""
    r = tlc.check_model(c["module"], c, workers=workers, timeout=6000)
    exp = {}
    if c["emit"]:
        for d in tlc.payloads(r, "EXPORT"):
            exp.update(d)
        exp["scripts"] = tlc.payloads(r, "SCRIPT")
        exp["cases"] = tlc.payloads(r, "CASE")
    r.pop("text"), r.pop("lines")
    return r, exp


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-mc", action="store_true")
    a = ap.parse_args()
    pid, only = a.pid, None
    if a.replay:
        rp = json.load(open(a.replay))
        a.tier, a.seed, only = rp["tier"], rp["seed"], rp.get("case")
    t0 = time.time()
    plan = PLAN[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = plan["run"](a, work, only, t0) if "run" in plan else kalman(a, plan, work, only, t0)
    except Machinery as ex:
        print("CHECK-ERROR property=%s %s" % (pid, ex))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(rc)


def kalman(a, plan, work, only, t0):
    pid = a.pid
    tlc.classes()
    configs = plan["mc"] + (plan.get("mc_thorough", []) if a.tier != "quick" else [])
    states = transitions = 0
    mc_info, export, futures = {}, {"cases": [], "scripts": []}, []
    with ThreadPoolExecutor(4) as mcex, ThreadPoolExecutor(8) as ex:
        # first what the driver replays, the rest while it runs
        first = [(c, mcex.submit(model_check, c, 3)) for c in configs if c["emit"]]
        rest = [(c, mcex.submit(model_check, c, 3)) for c in configs if not c["emit"] and not a.no_mc]
        for c, f in first:
            exp = f.result()[1]
            for k in exp:
                export[k] = export.get(k, []) + exp[k] if k in ("cases", "scripts") else exp[k]
        path = os.path.join(work, "export.json")
        json.dump(export, open(path, "w"))
        fail = drive(pid, a.tier, a.seed, work, path, only, timeout=500 if a.tier == "quick" else 6000)
        parts = sorted(f for f in os.listdir(work) if f.startswith("trace") and f.endswith(".json"))
        if fail is None:
            vs = list(ex.map(lambda f: validate(os.path.join(work, f), 8 if len(parts) == 1 else 3, plan.get("trace", "TraceKalman"),
                                                t0 + (780 if a.tier == "quick" else 20000)), parts))
        for c, f in first + rest:
            r, exp = f.result()
            states += r["distinct"]
            transitions += r["generated"]
            mc_info[c["name"]] = {"states": r["distinct"], "transitions": r["generated"], "laws": c["inv"] + c["prop"]}
            if c["emit"]:
                mc_info[c["name"]]["behaviours_exported"] = len(exp["cases"]) + len(exp["scripts"])
    violations = []
    judged = ndone = 0
    samples = []
    if fail is not None:
        # the driver catches what library calls raise: what reaches here is an
        # import or constructor that no longer works, or a call that never ends
        violations.append({"case": None, "tag": "driver", "bad": [], "error": fail})
        manifest = []
    else:
        manifest = json.load(open(os.path.join(work, "manifest.json")))
        bycase = {(m["part"], m["pos"]): m for m in manifest}
        for part, (r, done, bad) in enumerate(vs):
            states += r["distinct"]
            transitions += r["generated"]
            judged += sum(d["judged"] for d in done)
            ndone += len(done)
            per = {}
            for b in bad:
                per.setdefault(b["case"], []).append(b)
            for c, bs in per.items():
                m = bycase[(part, c)]
                k = known(pid, m["tag"], bs, os.path.join(work, parts[part]), c)
                if k:
                    print("KNOWN-FINDING: property=%s %s" % (pid, k))
                    continue
                violations.append({"case": m["index"], "tag": m["tag"], "how": m["how"], "bad": bs[:20],
                                   "trace": (part, c)})
        if ndone != len(manifest) and not (violations and any(v[0]["cut"] for v in vs)):
            raise Machinery("only %d of %d cases were consumed to their end" % (ndone, len(manifest)))
        if judged == 0:
            raise Machinery("nothing was judged")
        step = max(1, len(manifest) // 3)
        samples = [{k: m[k] for k in ("tag", "how", "events")} for m in manifest[::step][:4]]
    ev = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": ndone,
                       "samples": samples, "clauses_judged": judged, "model_checking_runs": mc_info, "exhaustive": False},
          "assumptions": plan.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if only is None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    return report(pid, a, violations, work)


def known(pid, tag, bs, path, c):
    """The committed finding that this failing case is: the same input failing in the same way."""
    for line in open(os.path.join(ROOT, "KNOWN_FINDINGS")):
        w = line.strip().split(None, 3)
        if len(w) == 4 and w[:2] == ["property=" + pid, "case=" + tag] and w[2].startswith("raised="):
            ev = json.load(open(path))[c - 1]["events"]
            if all(ev[b["event"] - 1].get("out", {}).get("raised", "").split(" ")[0] == w[2][7:] for b in bs):
                return "case=%s %s" % (tag, w[3])
    return None


COMMON = ["TLC evaluates the specification correctly", "floats are encoded as the exact rationals they are",
          "tolerances of spec/Tol.tla: far above rounding, far below any change of behaviour"]


def report(pid, a, violations, work):
    """Prints the verdict and writes the replay files."""
    if not violations:
        print("OK property=%s" % pid)
        return 0
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    for v in violations[:5]:
        path = os.path.join(d, "%s-%s-%s-%s.json" % (pid, a.tier, a.seed, v["case"] if v["case"] is not None else "driver"))
        rp = {"property": pid, "tier": a.tier, "seed": a.seed, "replay_with": "%s harness/check.py %s --replay %s" % (PY, pid, path)}
        rp.update({k: v[k] for k in v if k != "trace"})
        if v.get("trace"):
            part, c = v["trace"]
            cases = json.load(open(os.path.join(work, "trace%03d.json" % part)))
            rp["recorded"] = cases[c - 1]
        json.dump(rp, open(path, "w"))
        what = "; ".join("%s@event %s step %s" % (b["clause"], b["event"], b["k"]) for b in v["bad"][:4]) or str(v.get("error", ""))[-300:].replace("\n", " | ")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case %s (%s): %s" % (v["case"], v["tag"], what))
    if len(violations) > 5:
        print("  ... and %d more failing cases" % (len(violations) - 5))
    return 1


if __name__ == "__main__":
    main()
