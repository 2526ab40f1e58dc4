"""Units on histories of requests: behaviours of Session are generated by TLC, replayed on the library,
and the recorded sessions validated by TraceSession."""
import contextlib
import hashlib
import importlib
import io
import json
import math
import os
import re
import tempfile
import time
from fractions import Fraction

import api
import props
import vlib

NPAR = 6


# ------------------------------------------------------------------ what can be asked
class Menu:
    """the requests, uses and numbers of one topic, numbered from 1"""

    def __init__(self):
        self.groups, self.reqs, self.uses, self.uses_of, self.nums, self.nums_of = [], [], [], {}, [], []

    def use(self, name, mod, fn, *args, meth=False):
        u = dict(name=name, mod=mod, fn=fn, args=args, meth=meth)
        if u not in self.uses:
            self.uses.append(u)
        return self.uses.index(u) + 1

    def group(self, mod, fn, argss, uses=(), nums=(), kwargs=None):
        ids, ns = [], []
        for a in argss:
            self.reqs.append(dict(mod=mod, fn=fn, args=a, kw=kwargs or {}))
            ids.append(len(self.reqs))
            self.uses_of[len(self.reqs)] = list(uses)
        for n in nums:
            if n not in self.nums:
                self.nums.append(n)
            ns.append(self.nums.index(n) + 1)
        self.groups.append(ids)
        self.nums_of.append(ns)


def one(n, lo=0):
    return [(i,) for i in range(lo, n + 1)]


def ring(m):
    return [m.use("+", "", "__add__", "self"), m.use("-", "", "__sub__", "self"), m.use("*", "", "__mul__", "self"),
            m.use("3*", "", "__rmul__", 3), m.use("**", "", "__pow__", 2), m.use("merge into empty", "", "merge_empty"),
            m.use("txt", "", "write_to_txt"), m.use("csv", "", "write_to_csv"), m.use("copy", "", "copy")]


def returns(m, model):
    D = props.DERIVS[model]
    R, X = ring(m), f"ajdmom.mdl_{model}."
    par = [w for w in D if w not in ("mu",)][:4] + D[-1:]
    d = [m.use(f"dpoly {w}", X + "mom", "dpoly", w) for w in par]
    dc = [m.use(f"cdpoly {w}", X + "cmom", "dpoly", w) for w in par]
    top = 3
    m.group(X + "mom", "moment_y", one(top), R + d,
            [(X + "mom", "m", (n,), ()) for n in (1, 2, 3)] + [(X + "mom", "dm", (2,), (w,)) for w in D[:3]])
    m.group(X + "cmom", "cmoment_y", one(top), R + dc,
            [(X + "cmom", "cm", (n,), ()) for n in (2, 3)] + [(X + "cmom", "dcm", (2,), (w,)) for w in par[:2]])
    cs = [(1, 1), (1, 2), (2, 1)]
    cov = [(X + "cov", "cov", c, ()) for c in cs] + [(X + "cov", "dcov", (1, 1), (w,)) for w in D[:2]]
    m.group(X + "cov", "cov_yy", cs + [(1, 0), (0, 1)], R + d, cov)
    m.group(X + "cov", "moment_yy", cs, R + d, cov)


def topic(name, m=None):
    m = m or Menu()
    if "+" in name:                       # models that share parts, asked in one session
        for n in name.split("+"):
            topic(n, m)
        return m
    R = ring(m)
    A = "ajdmom."
    if name in ("1fsv", "1fsvj"):
        returns(m, name)
        m.group(A + "ito_mom", "moment_IEII", [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2)], R)
        m.group(A + "ito_mom", "moment_IEII", [(1, 1, 0), (1, 2, 1), (0, 2, 2), (0, 0, 4), (3, 0, 0), (0, 0, -1), (5, -1, 0)], R)
        m.group(A + "ito_mom", "moment_v", one(4) + [(6,), (7,)], R)
        m.group(A + "ito_mom", "int_et", [(0, 0), (0, 1), (1, 2), (-1, 1), (2, -1)], R)
    if name == "1fsv":
        s = [m.use(f"simplify {t}", A + "mdl_1fsv.cond_cmom", "simplify", t) for t in (1, 2, 3)]
        nums = [(A + "mdl_1fsv.cond_cmom", "cond_cm", (n,), ()) for n in (2, 3)]
        m.group(A + "mdl_1fsv.cond_cmom", "cmoments_y_to", one(3, 1), s + R, nums)
        m.group(A + "utils", "cmnorm", one(4) + [(6,), (7,)], R)
    if name == "1fsvj" or name == "2fsvj":
        m.group(A + "cpp_mom", "mcpp", one(4) + [(6,), (7,)], R)
        m.group(A + "cpp_mom", "cmcpp", one(4) + [(6,), (7,)], R)
        m.group(A + "cpp_mom", "mnorm", one(4) + [(6,), (7,)], R)
        m.group(A + "cpp_mom", "mcpp_original", one(3), R)
    if name in ("2fsv", "2fsvj"):
        returns(m, name)
        low = [tuple(int(i == j) for i in range(5)) for j in range(5)]
        m.group(A + "itos_mom", "moment_IEI_IEII", [(0,) * 5] + low[:3] + [(2, 0, 0, 0, 0), (0, 2, 0, 0, 0), (0, 0, 0, 0, 2)], R)
        m.group(A + "itos_mom", "moment_IEI_IEII", [(1, 1, 0, 0, 0), (0, 0, 1, 1, 0), (0, 1, 0, 1, 0), (1, 0, 0, 0, 2),
                                                   (0, 0, -1, 0, 0)], R)
        m.group(A + "itos_mom", "moment_IEI_IEII", [(0, 0, 0, 0, 2), (1, 0, 0, 0, 2), (1, 0, 2, 0, 0), (0, 0, 0, 0, 1)], (),
                kwargs=dict(return_all=True))
        m.group(A + "itos_mom", "int_et", [(0, 0, 0), (1, 0, 1), (1, -1, 1), (0, 2, 2)], R)
    if name == "srjd":
        X = A + "mdl_srjd."
        m.group(X + "cond_mom", "moment_x", one(3), R, [(X + "cond_mom", "m_x", (n,), ()) for n in (1, 2)])
        m.group(X + "cond_mom", "moment_v", one(3), R, [(X + "cond_mom", "m", (n,), ()) for n in (1, 2)])
        m.group(X + "cond_cmom", "cmoment_x", one(3), R, [(X + "cond_cmom", "cm_x", (n,), ()) for n in (2, 3)])
        m.group(X + "cond_cmom", "cmoment_v", one(3), R, [(X + "cond_cmom", "cm", (n,), ()) for n in (2, 3)])
        m.group(X + "mom", "moment_v", one(4) + [(6,), (7,)], R)
        m.group(X + "mom", "moment_v", one(3), R, kwargs=dict(simplify=False))
        m.group(X + "cmom", "cmoment_v", one(4), R)
        m.group(X + "cmom", "cond_cmoment_v", one(3), R)
        m.group(X + "iez_mom", "moment_IEZ", one(4) + [(6,), (7,)], R, [(X + "iez_mom", "m", (n,), ()) for n in (1, 2)])
        m.group(X + "iez_cmom", "cmoment_IEZ", one(4) + [(6,), (7,)], R, [(X + "iez_cmom", "cm", (n,), ()) for n in (2, 3)])
        m.group(X + "cond_ie_iez_mom", "moment_ie_iez", [(0, 0), (0, 1), (1, 0), (2, 0), (2, 1), (0, 3), (1, 2), (-1, 3)], R,
                [(X + "cond_ie_iez_mom", "m_ie_iez", c, ()) for c in ((2, 0), (2, 1))])
        m.group(X + "cond_ie_iez_mom", "moment_ie", one(4), R, [(X + "cond_ie_iez_mom", "m_ie", (2,), ())])
        m.group(X + "cond_ie_iez_cmom", "cmoment_ie_iez", [(0, 0), (0, 1), (1, 0), (2, 0), (2, 1), (0, 3), (1, 2)], R,
                [(X + "cond_ie_iez_cmom", "cm_ie_iez", c, ()) for c in ((2, 0), (2, 1))])
        m.group(X + "cond_ie_iez_cmom", "moment_ie", one(4), R, [(X + "cond_ie_iez_cmom", "m_ie", (2,), ())])
        m.group(X + "cond2_mom", "moment_v", one(3), R, [(X + "cond2_mom", "m", (n,), ()) for n in (1, 2)])
        m.group(X + "cond2_mom", "moment_IE", one(4) + [(6,), (7,)], R)
        m.group(X + "cond2_cmom", "cmoment_v", one(4), R, [(X + "cond2_cmom", "cm", (n,), ()) for n in (2, 3)])
    if name in ("svvj", "svij"):
        X = A + f"mdl_{name}."
        s = []
        if name == "svvj":
            s = [m.use(f"simplify {t}", X + "cond2_cmom", "simplify", t) for t in (0, 1)] + [
                m.use("classify", X + "cond2_cmom", "classify")]
        N = [(X + "cond2_mom", "m", (n,), ()) for n in (1, 2)]
        C = [(X + "cond2_cmom", "cm", (n,), ()) for n in (2, 3)]
        m.group(X + "cond2_mom", "moment_y", one(2, 1), R, N)
        m.group(X + "cond2_mom", "moments_y_to", one(2, 1), R, N)
        m.group(X + "cond2_cmom", "cmoment_y", one(3, 1), R + s, C)
        m.group(X + "cond2_cmom", "cmoments_y_to", one(3, 1), R + s, C)
        m.group(A + "ito_cond_mom", "moment_IEII", [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2)], R)
        m.group(A + "ito_cond_mom", "moment_IEII", [(1, 1, 0), (1, 1, 1), (3, 0, 0), (0, 1, 2), (2, 1, 0), (1, -1, 0)], R)
        m.group(A + "ito_cond_mom", "int_et_fZ", [(0, 0, 0), (1, 1, 0), (0, 1, 1), (1, 0, 2)], R)
    if name == "svcj2":
        X = A + "mdl_svcj."
        J1, J2, J3 = (0.5, 0.25), (0.5,), (0.25, 0.5)
        N = [(X + "cond2_mom", "m", (n,), ()) for n in (1, 2)]
        C = [(X + "cond2_cmom", "cm", (n,), ()) for n in (2, 3)]
        js = [(n, J) for n in (1, 2) for J in (J1, J2, J3, ())]
        m.group(X + "cond2_mom", "moment_y", js, R, N)
        m.group(X + "cond2_mom", "moments_y_to", js[4:], R, N)
        m.group(X + "cond2_mom", "moment_y", [(2, list(J1)), (2, list(J3)), (1, list(J2))], R, N)
        m.group(X + "cond2_cmom", "cmoment_y", [(n, J) for n in (2, 3) for J in (J1, J2, ())], R, C)
        m.group(X + "cond2_cmom", "cmoments_y_to", [(2, list(J1)), (3, list(J2)), (3, J1)], R, C)
    if name == "svcj":
        X = A + "mdl_svcj."
        u = [m.use("expand_sqrt", X + "cond_mom", "expand_sqrt")]
        for md, fn, s in (("cond_mom", "moment_y", "m_y"), ("cond_cmom", "cmoment_y", "cm_y"), ("mom", "moment_y", "unm_y"),
                          ("cmom", "cmoment_y", "cm_y")):
            m.group(X + md, fn, one(2), R, [(X + md, s, (n,), ()) for n in (1, 2)])
        m.group(X + "ieziziz_mom", "moment_ieziziz", [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 2), (2, 0, 1), (-1, 2, 0)], R,
                [(X + "ieziziz_mom", "m_ieziziz", (o,), ()) for o in ((1, 0, 1), (0, 2, 0))])
        m.group(X + "cond_ieii_ieziziz_mom", "moment_ieii_ieziziz",
                [(0,) * 6, (1, 0, 0, 0, 0, 0), (0, 1, 0, 0, 0, 0), (2, 0, 0, 0, 0, 0), (0, 0, 2, 0, 0, 0), (0, 0, 0, 1, 0, 0)], R,
                [(X + "cond_ieii_ieziziz_mom", "m_ieii_ieziziz", (o,), ()) for o in ((2, 0, 0, 0, 0, 0), (0, 1, 1, 0, 1, 0))])
        m.group(X + "cond_ieii_ieziziz_mom", "moment_ieii_ieziziz",
                [(1, 1, 0, 0, 0, 0), (0, 2, 0, 0, 1, 0), (0, 0, 2, 0, 0, 1), (2, 0, 0, 1, 0, 0), (0, 0, 0, 1, 0, 1)], R)
        m.group(A + "mdl_srjd.cmom", "cmoment_v", one(4), R)
        m.group(X + "mom", "moment_v_theta", one(3), R)
        m.group(A + "mdl_srjd.mom", "moment_v", one(4) + [(6,), (7,)], R)
        m.group(A + "cpp_mom", "mnorm", one(4) + [(6,), (7,)], R)
    return m


def parameters(rng):
    """variants of one parameter set that serves every model; neighbours differ in one entry"""
    d = lambda lo, hi: round(rng.uniform(lo, hi), 3)
    p = dict(k=d(.6, 1.5), k1=d(.6, 1.), k2=d(1.1, 2.), mu=d(.1, .5), theta=d(.2, .6), theta1=d(.2, .6), theta2=d(.2, .6),
             sigma=d(.1, .5), sigma_v=d(.1, .5), sigma_v1=d(.1, .5), sigma_v2=d(.1, .5), rho=d(-.8, -.2), h=1.0, v0=d(.2, .9),
             lmbd=d(.3, .9), mu_v=d(.1, .5), mu_s=d(.1, .5), sigma_s=d(.1, .5), rhoJ=d(-.5, .5), rho_J=d(-.5, .5), lmbd_s=d(.2, .8),
             mu_j=d(-.3, .3), sigma_j=d(.1, .5), ub=1.0, lb=0.25, jumptime=[0.3, 0.7], jumpsize=[0.25, 0.5])
    p["lambda"] = d(.3, .9)
    out = [p]
    out.append(dict(p, jumpsize=[0.5, 0.25]))
    out.append(dict(p, h=1.5, ub=1.5, jumptime=[0.2, 0.7]))
    out.append({k: (v if isinstance(v, list) else round(v * 1.25 if k != "rho" else v * 0.5, 4)) for k, v in p.items()})
    out[-1]["jumptime"] = [0.7, 0.3]         # jumps listed in no order
    # nearly the same; the same values under other names
    out.append({k: ([round(x + .0002, 4) for x in v] if k == "jumptime" else v if isinstance(v, list) else round(v + .0002, 4))
                for k, v in p.items()})
    swap = dict(theta1="theta2", sigma_v1="sigma_v2", mu_v="sigma_s", mu_s="sigma", lmbd="lmbd_s", mu_j="rhoJ", theta="v0", sigma_v="sigma_j")
    swap.update({b: a for a, b in swap.items()})
    out.append({k: p[swap.get(k, k)] for k in p})
    return out


# ------------------------------------------------------------------ doing it
def canonical(x):
    """a value as a string; equal contents have equal strings"""
    if hasattr(x, "keyfor"):
        return "P" + repr(tuple(x.keyfor)) + repr(sorted((repr(k), str(Fraction(v)) if isinstance(v, (int, Fraction)) else repr(v))
                                                       for k, v in x.items()))
    if isinstance(x, dict):
        return "D" + repr(sorted((repr(k), canonical(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return "L" + repr([canonical(v) for v in x])
    if isinstance(x, Fraction):
        return str(x)
    return repr(x)


def digest(x):
    if isinstance(x, str) and x.startswith("raises "):
        return x
    if hasattr(x, "dtype") and getattr(x, "shape", 1) == ():
        x = x.item()
    if isinstance(x, float) and not math.isfinite(x):
        return f"float {x}"
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return float(x)
    return hashlib.sha1(canonical(x).encode()).hexdigest()[:16]


def first_formula(x):
    if hasattr(x, "keyfor"):
        return x
    if isinstance(x, (list, tuple)) and x:
        return first_formula(x[-1])
    if isinstance(x, dict) and x:
        return first_formula(x[sorted(x)[-1]])
    raise TypeError("no formula")


class Client:
    def __init__(self, menu, pars, box):
        self.m, self.pars, self.box = menu, pars, box
        self.args = {}

    def quietly(self, f):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return f()
        except Exception as e:
            return f"raises {'ValueError' if isinstance(e, ValueError) else type(e).__name__}"

    def ask(self, q):
        r = self.m.reqs[q - 1]
        args = [list(a) if isinstance(a, list) else a for a in r["args"]]
        keep = repr(args)
        v = self.quietly(lambda: getattr(importlib.import_module(r["mod"]), r["fn"])(*args, **r["kw"]))
        return v if repr(args) == keep else "raises changed its arguments"

    def use(self, u, x):
        u = self.m.uses[u - 1]

        def f():
            p = first_formula(x)
            if u["mod"]:
                return getattr(importlib.import_module(u["mod"]), u["fn"])(p, *u["args"])
            if u["fn"].startswith("write"):
                path = os.path.join(self.box, "w" + u["fn"][-4:].replace("_", "."))
                getattr(p, u["fn"])(path)
                with open(path) as g:
                    return sorted(g.read().split("\n"))
            if u["fn"] == "merge_empty":
                e = type(p)()
                e.set_keyfor(p.keyfor)
                e.merge(p)
                return e
            if u["fn"] == "copy":
                return p.copy()
            if u["fn"] in ("__mul__", "__pow__") and len(p) > 40:
                return 2 * p
            return getattr(p, u["fn"])(*[p if a == "self" else a for a in u["args"]])
        return self.quietly(f)

    def par(self, v):
        return {k: list(x) if isinstance(x, list) else x for k, x in self.pars[v - 1].items()}

    def number(self, n, par):
        mod, fn, a, b = self.m.nums[n - 1]
        return self.quietly(lambda: getattr(importlib.import_module(mod), fn)(*a, par, *b))

    def change(self, x, how):
        """the client edits what it was given; returns the object to hold from now on"""
        if isinstance(x, str) or isinstance(x, (int, float, tuple)) or x is None:
            return x
        if isinstance(x, list):
            if how == 1:
                x.append("edited")
            elif how == 2:
                x.clear()
            elif how == 3 and x:
                x[0] = "edited"
            else:
                for y in x:
                    self.change(y, how)
            return x
        if hasattr(x, "keyfor"):
            if isinstance(x.keyfor, list):        # never so, but a client could
                x.keyfor.append("edited")
            ks = sorted(x.keys(), key=repr)
            if how == 1 or not ks:
                x[("edited", how)] = Fraction(how, 7)
            elif how == 2:
                x.clear()
            elif how == 3:
                del x[ks[0]]
            elif how == 4:
                x.add_keyval(ks[-1], Fraction(5, 3))
            elif how == 5:
                for k in ks:
                    x[k] = x[k] * 2
            elif how == 6:
                x.set_keyfor(tuple("renamed" + str(i) for i in range(len(x.keyfor))))
            elif how == 7:
                x.merge(x.copy() if isinstance(x.copy(), type(x)) else x)
            else:
                x.data = {}
            return x
        if isinstance(x, dict):
            if how % 2 and x:
                x.pop(sorted(x, key=repr)[0])
            else:
                for y in x.values():
                    self.change(y, how)
        return x


def session(client, ops, maxhold):
    """performs the operations; per step: digest of the answer and of everything held"""
    held, out = [], []

    def keep(x):
        if len(held) < maxhold:
            held.append(x)
        else:
            held[0] = x
    for s in ops:
        op, ans = s["op"], None
        o, i = op["o"], op["i"] - 1
        if o == "ask":
            ans = client.ask(op["q"])
            keep(ans)
        elif o == "use":
            ans = client.use(op["n"], held[i])
            keep(ans)
        elif o == "newpar":
            ans = client.par(op["n"])
            keep(ans)
        elif o == "num":
            ans = client.number(op["n"], held[i])
        elif o == "change":
            held[i] = client.change(held[i], op["n"])
        elif o == "repar":
            new = client.par(op["n"])
            for k, v in new.items():
                if isinstance(v, list):
                    held[i][k][:] = v
                else:
                    held[i][k] = v
        elif o == "drop":
            del held[i]
        out.append((None if ans is None else digest(ans), [digest(x) for x in held]))
        ans = None
    return out


def forked(f, limit=240):
    """f() in a process of its own; the library is imported there only"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = json.dumps(f())
        except BaseException as e:                        # reported to the parent
            out = json.dumps({"broken": f"{type(e).__name__}: {e}"})
        with os.fdopen(w, "w") as g:
            g.write(out)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        out = g.read()
    os.waitpid(pid, 0)
    return json.loads(out)


class Tokens:
    def __init__(self):
        self.words, self.numbers = {}, []

    def of(self, d):
        if isinstance(d, float):
            for i, x in enumerate(self.numbers):
                if abs(x - d) <= 1e-7 * max(abs(x), abs(d)) or x == d:
                    return 100000 + i
            self.numbers.append(d)
            return 100000 + len(self.numbers) - 1
        return self.words.setdefault(d, len(self.words) + 1)


def tla(x):
    if isinstance(x, set):
        return "{" + ", ".join(str(y) for y in sorted(x)) + "}"
    return "<<" + ", ".join(tla(y) for y in x) + ">>"


MAXHOLD = 7


def behaviours(r, m, num, depth, pool, seed, tour=False):
    """TLC generates sessions"""
    name = "SessionGen"
    with open(os.path.join(r.box, name + ".tla"), "w") as f:
        f.write(f"---- MODULE {name} ----\nEXTENDS Session\n"
                f"TheGroups == {tla([set(g) for g in m.groups])}\n"
                f"TheUses == {tla([set(m.uses_of[i + 1]) for i in range(len(m.reqs))])}\n"
                f"TheNums == {tla([set(n) for n in m.nums_of])}\n====\n")
    cfg = os.path.join(r.box, f"{name}.cfg")
    with open(cfg, "w") as f:
        f.write(f"INIT Init\nNEXT {'Touring' if tour else 'Next'}\nINVARIANTS {'EmitTour' if tour else 'Emit'} Deterministic\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                f" Groups <- TheGroups\n UsesOf <- TheUses\n NumsOf <- TheNums\n NPar = {NPAR}\n Depth = {depth}\n"
                f" MaxHold = {MAXHOLD}\n PoolSize = {min(pool, len(m.groups))}\n")
    vlib.phase("tlc sessions")
    t0 = time.time()
    rc, out = vlib.tlc(os.path.join(r.box, name), cfg, r.box,
                       extra=("-simulate", f"num={num}", "-depth", str(depth + 1), "-seed", str(seed)), lib=vlib.SPEC)
    r.tlc_s += time.time() - t0
    if rc != 0:
        raise vlib.MachineryError(vlib.quiet(out))
    k = re.search(r"The number of states generated: (\d+)", out)
    r.states += int(k.group(1)) if k else 0
    r.transitions += int(k.group(1)) if k else 0
    return [json.loads(json.loads(x)[len("BEHAVIOUR "):]) for x in out.splitlines() if x.startswith('"BEHAVIOUR ')]


def named(m, op):
    o = op["o"]
    if o == "ask":
        q = m.reqs[op["q"] - 1]
        return f"{q['mod'][7:]}.{q['fn']}{q['args']}{q['kw'] or ''}"
    if o == "use":
        return f"{m.uses[op['n'] - 1]['name']} of held {op['i']}"
    if o == "num":
        n = m.nums[op["n"] - 1]
        return f"{n[0][7:]}.{n[1]}{n[2]}{n[3] or ''} at held {op['i']}"
    return f"{o} {op['i'] or ''} {op['n']}"


def tours(r, about, num, pool=99):
    """every request of the topic is asked, changed and asked again, in an order of TLC's choosing"""
    sessions(r, about, num, 2000, pool, tour=True)


def sessions(r, about, num, depth=24, pool=3, tour=False):
    m = topic(about)
    seed = r.rng.randrange(1, 10 ** 6)
    hs = behaviours(r, m, num, depth, pool, seed, tour)
    t0 = time.time()
    c = Client(m, parameters(r.rng), r.box)
    tok = Tokens()
    # what fresh processes answer
    want = {("par", v, 0): None for v in range(1, NPAR + 1)}
    for h in hs:
        for s in h:
            a = s["ans"]
            if a["k"] != "none":
                want[(a["k"], a["a"], a["b"])] = None
    fresh = []
    for key in sorted(want):
        k, a, b = key
        vlib.phase(f"lib fresh {key}")
        if k == "val":
            d = forked(lambda: digest(c.ask(a)))
        elif k == "use":
            d = forked(lambda: digest(c.use(a, c.ask(b))))
        elif k == "num":
            d = forked(lambda: digest(c.number(a, c.par(b))))
        else:
            d = digest(c.par(a))
        if isinstance(d, dict):
            raise vlib.MachineryError(f"{key}: {d}")
        fresh.append(dict(k=k, a=a, b=b, t=tok.of(d)))
    ev, notes = [dict(op="fresh", val=fresh)], {}
    for hi, h in enumerate(hs):
        vlib.phase(f"lib session {hi}: " + "; ".join(named(m, s["op"]) for s in h)[:3000])
        got = forked(lambda: session(c, h, MAXHOLD))
        ev.append(dict(op="session"))
        if isinstance(got, dict):
            raise vlib.MachineryError(f"session {hi}: {got}")
        for i, (s, (a, hold)) in enumerate(zip(h, got)):
            ident = f"session {hi} step {i}: {named(m, s['op'])}"
            notes[ident] = " <- ".join(named(m, x["op"]) for x in h[:i + 1][::-1])[:400]
            ev.append(dict(op="step", do=s["op"], ans=0 if a is None else tok.of(a), hold=[tok.of(x) for x in hold], id=ident))
        if hi < 2:
            r.sample(dict(session=[named(m, s["op"]) for s in h]))
    r.lib_s += time.time() - t0
    r.judge("TraceSession", "TraceSession.cfg", ev, "sessions", notes, traces=len(hs))
