"""Replays behaviours of PolyAlg, generated by TLC, on the library's polynomials."""
import json
import os
import re
import time
from fractions import Fraction

import vlib


def behaviours(r, num, depth, nreg, kinds, seed):
    """one TLC simulation run"""
    cfg = os.path.join(r.box, f"sim{seed}.cfg")
    with open(cfg, "w") as f:
        f.write("INIT Init\nNEXT Next\nINVARIANTS WellFormed Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                f"  NReg = {nreg}\n  Depth = {depth}\n"
                "  Kinds = {" + ", ".join(f'"{k}"' for k in kinds) + "}\n")
    vlib.phase("tlc")
    t0 = time.time()
    rc, out = vlib.tlc("PolyAlg", cfg, r.box,
                       extra=("-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(seed)))
    r.tlc_s += time.time() - t0
    if rc != 0:
        raise vlib.MachineryError(vlib.quiet(out))
    m = re.search(r"The number of states generated: (\d+)", out)
    r.states += int(m.group(1)) if m else 0
    r.transitions += int(m.group(1)) if m else 0
    for line in out.splitlines():
        if line.startswith('"BEHAVIOUR '):
            yield json.loads(json.loads(line)[len("BEHAVIOUR "):])


def frac(v, alt):
    f = Fraction(v[0], v[1])
    return int(f) if alt and f.denominator == 1 else f


class Machine:
    """the registers, holding the library's objects"""

    def __init__(self, nreg):
        from ajdmom.poly import Poly
        self.Poly = Poly
        self.reg = []
        for _ in range(nreg):
            p = Poly()
            p.set_keyfor(["e", "h"])
            self.reg.append(p)

    def step(self, op, after, alt):
        """executes one operation; returns (raised, answer)"""
        o, R = op["o"], self.reg
        d, a, b = op["d"] - 1, op["a"] - 1, op["b"] - 1
        n = op["n"]
        try:
            res = None
            if o == "new":
                # the contents of a new polynomial are those of the register afterwards
                q = after[d]
                res = self.Poly({tuple(k): frac((x, y), alt) for k, x, y in q["t"]})
                res.set_keyfor(q["kf"] if alt else tuple(q["kf"]))
            elif o == "alias":
                res = R[a]
            elif o == "copy":
                res = R[a].copy()
            elif o == "add":
                res = R[a] + R[b]
            elif o == "sub":
                res = R[a] - R[b]
            elif o == "mul":
                res = R[a] * R[b]
            elif o == "rmul":
                res = frac(op["v"], alt) * R[a]
            elif o == "pow":
                res = R[a] ** n
            elif o == "merge":
                got = R[a].merge(R[b])              # documented to return the updated polynomial
                if not isinstance(got, self.Poly) or got.keyfor != R[a].keyfor or dict(got) != dict(R[a]):
                    return None, f"merge returned {got!r}"[:120]
            elif o == "addkv":
                R[a].add_keyval(tuple(op["k"]), frac(op["v"], alt))
            elif o == "remzero":
                R[a].remove_zero()
            elif o == "setkf":
                R[a].set_keyfor(op["kf"])
            elif o == "sametype":
                return None, R[a].is_exact_type(R[b])
            elif o == "alien":
                {1: lambda: R[a] + 3, 2: lambda: R[a] * 3, 3: lambda: R[a] - {},
                 4: lambda: R[a].merge({})}[n]()
            elif o == "mulx":
                res = R[a].mul_poly(R[b], (op["ix"][0], op["ix"][1]), op["kf"])
            else:
                raise SystemExit(f"unknown operation {o}")
            if res is not None:
                if not isinstance(res, self.Poly):
                    return None, f"a {type(res).__name__}"
                R[d] = res
            return None, None
        except Exception as e:
            return type(e).__name__, None


def shot(p):
    t = {}
    for k, v in p.items():
        if isinstance(v, bool) or not isinstance(v, (int, Fraction)):
            v = repr(v)
        t[k] = v
    return tuple(p.keyfor), t


def want_shot(q):
    return tuple(q["kf"]), {tuple(k): Fraction(x, y) for k, x, y in q["t"]}


def polyalg(r, kinds, num, depth, nreg, only=None):
    seed = r.rng.randrange(1, 10 ** 6)
    hs = list(behaviours(r, num, depth, nreg, kinds, seed))
    r.traces += len(hs)
    seen = set()
    t0 = time.time()
    for bi, h in enumerate(hs):
        vlib.phase(f"lib behaviour {bi}")
        M = Machine(nreg)
        for i, st in enumerate(h):
            op = st["op"]
            before = [shot(p) for p in M.reg] if op["raises"] else None
            raised, ans = M.step(op, st["after"], (bi + i) % 2 == 0)
            case = f"{op['o']} " + json.dumps([h[j]["op"] for j in range(i + 1)][-4:])
            if op["raises"]:
                if raised != "NotImplementedError":
                    r.fail(op["o"], "NotImplementedError", raised or "no error", case)
                    break
                if before != [shot(p) for p in M.reg]:
                    r.fail(op["o"], "operands unchanged by a refusal", "changed", case)
                    break
            elif raised:
                r.fail(op["o"], "no error", raised, case)
                break
            elif isinstance(ans, str):
                r.fail(op["o"], "a polynomial", ans, case)
                break
            elif op["o"] == "sametype" and ans is not op["ans"]:
                r.fail("sametype", op["ans"], ans, case)
                break
            got = [shot(p) for p in M.reg]
            want = [want_shot(q) for q in st["after"]]
            if got != want:
                j = next(j for j in range(nreg) if got[j] != want[j])
                r.fail(op["o"], f"register {j + 1} = {want[j]}", got[j], case)
                break
            key = json.dumps(op) + str(want)
            if key not in seen:
                seen.add(key)
                r.ok += 1
                if i > 5:
                    r.sample(dict(step=op, registers=st["after"]))
    r.distinct += len(seen)
    r.lib_s += time.time() - t0


def laws(r, module="PolyLaws", cfg=None):
    """what the specification itself must satisfy, model-checked"""
    vlib.phase("tlc laws")
    rc, out = vlib.tlc(module, (cfg or module) + ".cfg", r.box, workers="6")
    if rc != 0:
        raise vlib.MachineryError(vlib.quiet(out))
    r.good()
    r.states += vlib.states_of(out)[1]
    r.transitions += vlib.states_of(out)[0]
