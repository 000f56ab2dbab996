"""Make a planted bug in /verif/seeded/<id> after confirming it in a scratch copy of /repo.

usage: plant.py SPEC.py [ID...]   SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PKG = "pylogics_modalities/"
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def stable():
    for k in ("stable_pass", "stable", "tests", "passed"):
        if k in STABLE:
            return set(STABLE[k])
    raise SystemExit(list(STABLE))


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    for b in bugs:
        if ids and b["id"] not in ids:
            continue
        d = tempfile.mkdtemp(prefix="plant-")
        try:
            r = os.path.join(d, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
            dest = "/verif/seeded/" + b["id"]
            env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
            os.makedirs(dest, exist_ok=True)
            with open(dest + "/demo.py", "w") as f:
                f.write(b["demo"].lstrip("\n"))
            with open(dest + "/demo.sh", "w") as f:
                f.write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\n'
                        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$d/demo.py"\n')
            os.chmod(dest + "/demo.sh", 0o755)
            clean = subprocess.run(["bash", dest + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
            for fn, old, new in b["edits"]:
                p = os.path.join(r, PKG + fn)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], fn, s.count(old))
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
            with open(dest + "/patch.diff", "w") as f:
                f.write(diff)
            bad = subprocess.run(["bash", dest + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True)
            t = subprocess.run("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p no:randomly -p vp_hypothesis -n 0 "
                               "-W ignore::DeprecationWarning tests 2>&1 | tail -15" if False else
                               "/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:randomly -p vp_hypothesis "
                               "-W ignore::DeprecationWarning tests pylogics_modalities --doctest-modules -rfE 2>&1 | tail -15",
                               shell=True, cwd=r, env=dict(env, PYTHONPATH=r + ":/opt/vp/plugins", HYPOTHESIS_STORAGE_DIRECTORY=d + "/h"),
                               capture_output=True, text=True)
            with open(dest + "/meta.json", "w") as f:
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
            ok = clean.returncode == 0 and bad.returncode != 0
            print(b["id"], "demo clean", clean.returncode, "patched", bad.returncode, "OK" if ok else "BAD",
                  "| tests:", t.stdout.strip().splitlines()[-4:], (clean.stderr[-300:] if clean.returncode else ""), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
