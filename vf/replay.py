"""Replay a recorded failing input on the current tree: replay.py <file>."""
import json
import sys

from .fals import registry, run_case


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    if "case" not in d:
        print(json.dumps(d, indent=1))
        sys.exit(2)
    r = run_case(registry()[d["property"]], d["case"])
    print(r)
    sys.exit(1 if r else 0)


if __name__ == "__main__":
    main()
