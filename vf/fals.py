"""Run the executable contract of one property on the real code, within a time budget."""
import json
import os
import signal
import sys
import time
import traceback


class Timeout(BaseException):
    pass


def registry():
    from . import f_syntax, f_text, f_nd
    return {**f_syntax.ALL, **f_text.ALL, **f_nd.ALL}


def _alarm(*_):
    raise Timeout()


def run_case(cls, c, limit=30):
    """None | text | ('known', id, text)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return cls.check(json.loads(json.dumps(c)))
    except Timeout:
        return f"no answer within {limit} s"
    except RecursionError:
        return None  # deeper than the interpreter allows: outside the machine model
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def campaign(prop, seed, budget, worker=0, workers=1, tier="quick", hints=()):
    """Explore; returns a dict with counts, samples, known findings and at most one violation."""
    from .gen import Gen
    cls = registry()[prop]
    g = Gen(seed, f"{prop}/{worker}")
    t0 = time.time()
    out = {"evaluations": 0, "distinct": 0, "samples": [], "known": {}, "violation": None, "errors": []}
    seen = set()
    n = 0
    import itertools
    for c in itertools.chain(hints, cls.cases(g, tier)):
        n += 1
        if time.time() - t0 > budget:
            break
        if not g.phase and n > len(hints) and n % workers != worker:
            continue  # the systematic part is shared out between the workers
        key = hash(json.dumps(c, sort_keys=True))
        if key in seen:
            continue
        seen.add(key)
        try:
            r = run_case(cls, c)
        except Exception:  # noqa
            out["errors"].append(traceback.format_exc()[-600:])
            if len(out["errors"]) > 3:
                break
            continue
        out["evaluations"] += 1
        if len(out["samples"]) < 3 and out["evaluations"] % 97 == 5:
            out["samples"].append(c)
        if isinstance(r, tuple) and r[0] == "known":
            out["known"].setdefault(r[1], r[2])
        elif r:
            out["violation"] = {"case": c, "message": r}
            break
        if out["evaluations"] % 4000 == 0:
            from pylogics_modalities.syntax import base
            base.reset_cache()
    out["distinct"] = len(seen)
    out["systematic_complete"] = bool(g.phase)
    out["accepted"] = getattr(cls, "accepted", None)
    out["wall"] = time.time() - t0
    return out


if __name__ == "__main__":
    prop, seed, budget, worker, workers, tier, path = sys.argv[1:8]
    sys.setrecursionlimit(3000)
    res = campaign(prop, seed, float(budget), int(worker), int(workers), tier)
    with open(path, "w") as f:
        json.dump(res, f)
