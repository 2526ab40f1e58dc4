"""Units: what a check runs.  Each takes a vlib.Result and fills it."""
import time
import traceback
from itertools import product

import models
from vlib import Point, ResidueZero


def orders(k, n, weights=None):
    w = weights or [1] * k
    return [o for o in product(range(n + 1), repeat=k) if sum(a * b for a, b in zip(o, w)) <= n]


def tup(x):
    return tuple(map(tup, x)) if isinstance(x, list) else x


ARGS = dict(orders=orders, covs=models.cov_orders)


def ajd(r, build, args=(), points=2):
    """sessions of AJDMachine at several points, judged by TLC in one run"""
    lib = models.Lib()
    args = [ARGS[a[0]](*a[1:]) if isinstance(a, list) and a and isinstance(a[0], str)
            else tup(a) for a in args]
    f = getattr(models, build)
    ev, notes = [], {}
    t0 = time.time()
    for i in range(points):
        for attempt in range(6):
            p = Point(r.rng)
            try:
                s = f(p, lib, *args)
                break
            except ResidueZero as e:
                last = e
            except Exception:
                tb = traceback.format_exc()
                if "/src/ajdmom" in tb or "Error: cannot import" in tb or "No module" in tb:
                    r.fail(f"{build}{args}", "the library can be used", "it cannot", tb[-400:])
                    return
                raise
        else:
            raise last
        ev += s.ev
        notes.update(s.notes)
        if i == 0:
            for e in s.ev:
                if e["op"] == "ask":
                    r.sample(dict(call=e["id"], query=e["ask"], residue=e["got"]))
    r.lib_s += time.time() - t0
    r.judge("TraceAJD", "TraceAJD.cfg", ev, build, notes, traces=points)
