"""Prover entry: prove.py <property> <tier> <out.json>."""
import importlib
import json
import os
import subprocess
import sys
import tempfile

MODULES = {"C01": "p_cons", "C02": "p_sem", "C03": "p_cons", "C04": "p_eq", "C05": "p_cache", "C06": "p_text", "C07": "p_text", "C08": "p_parse",
           "C09": "p_text", "C10": "p_nd", "C11": "p_nd", "C12": "p_ndc", "C13": "p_wf", "C14": "p_copy", "C15": "p_frame", "C16": "p_sym"}
ND = {"C10": ["pl"], "C11": ["fol"], "C12": ["fol", "pl"],       # the logics whose proofs are considered
      "C15": ["", "fol", "pl"]}                                  # "": everything but proofs
SUM = ("obligations", "discharged", "z3_checks", "z3_cache_hits", "z3_unknown", "solver_s")


def prove(prop):
    sys.setrecursionlimit(20000)
    from vf.eng.verify import Verifier
    m = importlib.import_module("vf.eng." + MODULES[prop])
    V = Verifier(prop, float(os.environ.get("VERIF_PROVE_BUDGET", "650")) * 0.85)
    f = getattr(m, "prove_" + prop, None) or m.prove
    return f(V)


def each_logic(prop, tier):
    """One run per logic; the results together."""
    res = None
    for lg in ND[prop]:
        with tempfile.TemporaryDirectory(prefix="vf-") as d:
            out = os.path.join(d, "p.json")
            subprocess.run([sys.executable, "-B", "-m", "vf.prove", prop, tier, out], env=dict(os.environ, VF_ND=lg), check=True)
            with open(out) as f:
                r = json.load(f)
        tag = f" ({lg})" if lg and len(ND[prop]) > 1 else ""
        for k in ("failed", "undecided"):
            for o in r[k]:
                o["name"] += tag
        r["coverage"]["obligation_list"] = [x + tag for x in r["coverage"]["obligation_list"]]
        if res is None:
            res = r
            continue
        for k in ("failed", "undecided"):
            res[k] += r[k]
        res["assumptions"] += [a for a in r["assumptions"] if a not in res["assumptions"]]
        for k, v in r["coverage"].items():
            if k in SUM:
                res["coverage"][k] = round(res["coverage"].get(k, 0) + v, 2)
            elif isinstance(v, list):
                res["coverage"][k] = res["coverage"].get(k, []) + [x for x in v if x not in res["coverage"].get(k, [])]
        for k in res["summary"]:
            res["summary"][k] += r["summary"][k]
    return res


def main():
    prop, tier, out = sys.argv[1:4]
    res = {}
    if prop in ND and os.environ.get("VF_ND") is None:
        res = each_logic(prop, tier)
    elif prop in MODULES:
        res = prove(prop)
    with open(out, "w") as f:
        json.dump(res, f, indent=1)


if __name__ == "__main__":
    main()
