"""Run the check of each seeded bug's property against a patched copy of /repo.  trybugs.py [bug...] (development only)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def main():
    for b in sys.argv[1:] or sorted(os.listdir(SEED)):
        meta = json.load(open(os.path.join(SEED, b, "meta.json")))
        d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            subprocess.run(["git", "-C", d, "apply", os.path.join(SEED, b, "patch.diff")], check=True)
            t = time.time()
            r = subprocess.run([os.path.join(HERE, "check"), meta["property"]], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"{b:32} {meta['property']} exit {r.returncode} {round(time.time() - t)} s {'no-failing-input' if v and 'no-failing' in v[0] else 'input' if v else ''}"
                  f" | {r.stdout.splitlines()[0][:150] if r.stdout else ''}", flush=True)
        finally:
            shutil.rmtree(d)


main()
