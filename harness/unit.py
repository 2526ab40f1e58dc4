"""Runs one unit in its own process; see check.py."""
import importlib
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib                                              # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        u = json.load(f)
    box = u["scratch"]
    vlib.PHASE = os.path.join(box, "phase")
    vlib.phase("lib start")
    mod, fn = u["run"].split(".")
    # the seed of a unit depends on its name, so that units are independent
    rng = random.Random(f"{u['seed']}/{u['property']}/{u['name']}")
    r = vlib.Result(u["name"], box, rng, u["tier"])
    t0 = time.time()
    getattr(importlib.import_module(mod), fn)(r, **u.get("args", {}))
    out = r.out()
    out["total_s"] = round(time.time() - t0, 2)
    tmp = os.path.join(box, "result.tmp")
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.rename(tmp, os.path.join(box, "result.json"))


main()
