"""Entry point of a check:  run.py <property>."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TRUSTED = []


def findings():
    """Findings listed in known-findings.json: id -> entry (only entries recorded as open)."""
    with open(os.path.join(HERE, "known-findings.json")) as f:
        return {e["id"]: e for e in json.load(f)["known"]}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = float(os.environ.get("VERIF_FALS_BUDGET", "30" if tier == "quick" else "300"))
    pbudget = float(os.environ.get("VERIF_PROVE_BUDGET", "650" if tier == "quick" else "700"))
    workers = 4 if tier == "quick" else 6
    env = dict(os.environ, PYTHONPATH=f"{REPO}:{HERE}", PYTHONHASHSEED=str(seed % 4294967295), PYTHONDONTWRITEBYTECODE="1",
               VERIF_REPO=REPO)
    tmp = tempfile.mkdtemp(prefix="vf-")
    try:
        procs = []
        for w in range(workers):
            out = os.path.join(tmp, f"f{w}.json")
            procs.append((subprocess.Popen([PY, "-B", "-m", "vf.fals", prop, str(seed), str(budget), str(w), str(workers), tier, out],
                                           cwd=tmp, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, f"f{w}.err"), "w")), out))
        pout = os.path.join(tmp, "p.json")
        pp = subprocess.Popen([PY, "-B", "-m", "vf.prove", prop, tier, pout], cwd=tmp, env=env, stdout=subprocess.DEVNULL,
                              stderr=open(os.path.join(tmp, "p.err"), "w"))
        fres = [collect(p, out, t0 + budget + 90, out[:-5] + ".err") for p, out in procs]
        if any(r.get("violation") for r in fres):
            pbudget = min(pbudget, time.time() - t0 + 1)   # a failing input decides
        pres = collect(pp, pout, t0 + pbudget, os.path.join(tmp, "p.err"))
        report(prop, tier, seed, fres, pres, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def collect(p, path, deadline, err):
    try:
        p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {"crash": "time limit", "partial": load(path)}
    r = load(path)
    if r is None:
        return {"crash": open(err).read()[-1500:]}
    return r


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def replayed(prop, case):
    with tempfile.TemporaryDirectory(prefix="vf-") as d:
        p = os.path.join(d, "case.json")
        with open(p, "w") as f:
            json.dump({"property": prop, "case": case}, f)
        try:
            r = subprocess.run([PY, "-B", "-m", "vf.replay", p], cwd=d, env=dict(os.environ, PYTHONPATH=f"{REPO}:{HERE}", PYTHONDONTWRITEBYTECODE="1"),
                               capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        return r.stdout.strip() if r.returncode == 1 and r.stdout.strip() and "known" not in r.stdout[:9] and "Traceback" not in r.stderr else None


def violation(prop, payload, suffix=""):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = f"{prop}-{hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]}.json"
    path = os.path.join(d, name)
    payload = dict(payload, property=prop, replay_cmd=f"{PY} -B -m vf.replay {path}   (cwd {HERE}, PYTHONPATH={REPO}:{HERE})")
    with open(path, "w") as f:
        json.dump(payload, f, indent=1, default=str)
    print(f"VIOLATION property={prop} replay={path}{suffix}", flush=True)


def report(prop, tier, seed, fres, pres, t0):
    ok = [r for r in fres if "crash" not in r]
    ev = sum(r["evaluations"] for r in ok)
    known = {}
    for r in ok:
        known.update(r["known"])
    viol = next((r["violation"] for r in ok if r["violation"]), None)
    errors = [e for r in ok for e in r["errors"]] + [r["crash"] for r in fres if "crash" in r]
    listed = findings()
    code = 0
    if viol:
        print(f"{prop}: {viol['message'][:1500]}")
        violation(prop, {"kind": "failing input replayed on the real code", **viol, "proof": pres.get("summary")})
        code = 1
    unlisted = [k for k in known if k not in listed]
    if unlisted and not code:
        violation(prop, {"kind": "unlisted finding", "message": known[unlisted[0]]})
        code = 1
    for k, txt in sorted(known.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {txt} [{k}]")
    failed = pres.get("failed", [])
    for o in failed + [u for u in pres.get("undecided", []) if u.get("case") is not None][:5]:
        # a counterexample of the verifier is replayed on the real code
        if o.get("case") is not None and not code:
            m = replayed(prop, o["case"])
            if m:
                print(f"{prop}: {m[:1500]}")
                violation(prop, {"kind": "counterexample of the verifier replayed on the real code", "case": o["case"], "message": m, "obligation": o["name"]})
                code = 1
    if failed and not code:
        o = failed[0]
        print(f"{prop}: obligation {o['name']} fails: {o['why'][:600]}")
        violation(prop, {"kind": "failed obligation", "obligation": o["name"], "function": o.get("function"), "verifier_output": o,
                         "all_failed": [x["name"] for x in failed]}, " no-failing-input-found")
        code = 1
    undecided = pres.get("undecided", [])
    if "crash" in pres:
        undecided = undecided + [{"name": "prover", "why": pres["crash"]}]
    for u in undecided[:5]:
        print(f"{prop}: UNDECIDED obligation {u['name']}: {u['why'][:300]}")
    cov = {
        "evaluations": ev, "distinct_nontrivial": sum(r["distinct"] for r in ok),
        "rule": "executable contract of the property run on the real code: systematic small scope shared between workers, then seeded random cases; "
                "distinct = different case descriptions",
        "samples": [s for r in ok for s in r["samples"]][:6] or [None],
        "systematic_complete": all(r.get("systematic_complete") for r in ok) if ok else False,
        "falsifier_errors": errors[:3],
    }
    pc = pres.get("coverage")
    level = "exploration"
    if pc:
        cov.update(pc)
        if pc.get("obligations"):
            level = "proof"
    cov["undecided"] = [f"{u['name']}: {u['why'][:200]}" for u in undecided]
    evd = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": pres.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": code}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evd, f, indent=1)
    if not ok and not code:
        print(f"{prop}: every falsifier worker failed: {errors[:1]}")
        sys.exit(3)
    n, d = cov.get("obligations", 0), cov.get("discharged", 0)
    print(f"{prop}: {'violated' if code else 'held'}; {d}/{n} obligations discharged; {ev} cases on the real code; {evd['wall_s']} s")
    sys.exit(code)


if __name__ == "__main__":
    main()
