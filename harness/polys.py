"""Units on formulas: derivatives, rewritings, time integrals (TracePoly)."""
import copy
import importlib
import os
import time
from fractions import Fraction

import models
import vlib
from vlib import P, Point, ResidueZero, fp, inv

T0 = vlib.T0
KNOWN = {
    "int": {"e^{kt}", "e^{k[t-(n-1)h]}", "e^{-kt}", "e^{-kh}", "e^{ks}", "e^{k(n-1)h}",
            "e^{k(s_i1 v...v s_in)}", "t", "h", "[t-(n-1)h]", "t-s", "s", "(s_i1 v...v s_in)",
            "k^{-}", "mu", "theta", "theta1", "theta2", "sigma", "sigma_v", "sigma_v1", "sigma_v2",
            "rho", "sqrt(1-rho^2)", "lambda", "lmbd", "mu_v", "mu_j", "mu_s", "sigma_j", "sigma_s",
            "rhoJ", "rho_J", "lmbd_s", "v_0", "v_{n-1}", "v_{1,n-1}", "v_{2,n-1}", "v0-theta",
            "v_0-theta", "E[v]", "v0-E[v]", "beta_t", "mu-theta/2", "sigma/2k", "rho-sigma/2k",
            "sigma_v^2/k"},
    "pair": {"e^{-(n1*k1+n2*k2)h}", "e^{(m_4*k1+m_6*k2)(n-1)h}", "e^{(j_1*k1+j_2*k2)[t-(n-1)h]}",
             "e^{(n1*k1+n2*k2)[t-(n-1)h]}"},
    "t0": {T0}, "triple": {"(n1*k1+n2*k2)^{-}"},
    "seq": {"l_{1:n}", "o_{1:n}", "o_{2:n}", "p_{2:n}", "q_{2:n}", "J_{1:n}"},
}
KIND = {n: k for k, ns in KNOWN.items() for n in ns}


class Malformed(Exception):
    pass


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def ints(x, n=None):
    return isinstance(x, tuple) and all(map(is_int, x)) and (n is None or len(x) == n)


def well(kind, x):
    return (is_int(x) if kind == "int" else ints(x, 2) if kind == "pair" else ints(x, 3)
            if kind == "triple" else ints(x) if kind == "seq"
            else isinstance(x, tuple) and all(ints(y, 3) for y in x))


def enc(poly, coef=fp):
    """a formula of the library as data for TLC"""
    kf = list(poly.keyfor)
    for n in kf:
        if n not in KIND:
            raise Malformed(f"unknown name {n!r}")
    ts = []
    for key, c in poly.items():
        if not isinstance(key, tuple) or len(key) != len(kf):
            raise Malformed(f"key {key!r} for names {kf}")
        for n, x in zip(kf, key):
            if not well(KIND[n], x):
                raise Malformed(f"exponent {x!r} of {n!r}")
        if "l_{1:n}" in kf:
            i = kf.index("l_{1:n}")
            n = len(key[i])
            m = max(n - 1, 0)
            want = (n, m) if kf[i + 1] == "o_{2:n}" else (n, n, m, m)
            if tuple(len(x) for x in key[i:i + len(want)]) != want:
                raise Malformed(f"jump exponents {key[i:i + len(want)]}")
        if isinstance(c, bool) or not isinstance(c, (int, Fraction)):
            raise Malformed(f"coefficient {c!r}")
        ts.append([coef(c), list(key)])
    return dict(kf=kf, t=ts)


def make_env(p, rng, njump=0, from_zero=True):
    """a point of GF(P) as the record the specification uses"""
    pt, start = p.time(), dict(e1=1, e2=1, t=0) if from_zero else p.time()
    path = [dict(E=p.R(), S=p.R(), J=p.R(), r=j) for j in range(njump)]
    return dict(k1=p.k1, k2=p.k2, th1=p.th1, s1=p.s1, th2=p.th2, s2=p.s2, mu=p.mu, rho=p.rho,
                srho=p.srho, lam=p.lam, muv=p.muv, mus=p.mus, sgs=p.sgs, rhoJ=p.rhoJ, lam2=p.lam2,
                v1=p.v1, v2=p.v2, t=pt["t"], e1=pt["e1"], e2=pt["e2"],
                s=start["t"], es1=start["e1"], es2=start["e2"], path=path)


class Tape:
    """a recorded trace for TracePoly"""

    def __init__(self, r):
        self.r, self.ev, self.notes = r, [], {}

    def env(self, njump=0, from_zero=True):
        self.ev.append(dict(op="env", env=make_env(Point(self.r.rng), self.r.rng, njump, from_zero)))

    def put(self, ident, call, make):
        """call(): the library's result (a formula or a list of formulas); make(enc'd): the event"""
        vlib.phase("lib " + ident)
        try:
            res = call()
            res = res if isinstance(res, (list, tuple)) else [res]
            got = [enc(x) for x in res]
            e = dict(make(), id=ident, got=got)
        except ResidueZero:
            raise
        except Exception as ex:
            e = dict(op="broken", id=ident)
            self.notes[ident] = f"{type(ex).__name__}: {ex}"
        self.ev.append(e)

    def judge(self, tag):
        self.r.judge("TracePoly", "TracePoly.cfg", self.ev, tag, self.notes)


def attr(mod, name):
    """an internal helper; None when the library no longer has it"""
    try:
        return getattr(importlib.import_module(mod), name, None)
    except ImportError:
        return None


# ------------------------------------------------------------ random formulas
def rnd_exp(rng, name, lo=-3, hi=4):
    k = KIND[name]
    if k == "pair":
        return (rng.randint(lo, hi), rng.randint(lo, hi))
    if k == "t0":
        out = []
        for _ in range(rng.choice([1, 2, 3, 3, 5, 8])):
            while True:
                a, b = rng.randint(-3, 4), rng.randint(-3, 4)
                if (a, b) != (0, 0) and all((a, b) != x[:2] for x in out):
                    break
            out.append((a, b, rng.choice([1, 2, 3, 7])))
        return tuple(out) if rng.random() < 0.85 else ((0, 0, 0),)
    return rng.randint(lo, hi)


def rnd_poly(rng, kf, n, exps=None, levels=(0,)):
    """exps: {name: function(rng)} overrides"""
    from ajdmom.poly import Poly
    p = Poly()
    p.set_keyfor(kf)
    exps = exps or {}
    for _ in range(n):
        key, L = [], rng.choice(levels)
        for name in kf:
            if name in exps:
                key.append(exps[name](rng))
            elif name in ("l_{1:n}", "o_{1:n}"):
                key.append(tuple(rng.randint(-1, 3) for _ in range(L)))
            elif name in ("p_{2:n}", "q_{2:n}", "o_{2:n}"):
                key.append(tuple(rng.randint(-1, 3) for _ in range(max(L - 1, 0))))
            else:
                key.append(rnd_exp(rng, name, 0 if name not in ("e^{kt}", "e^{-kh}", "e^{-kt}", "k^{-}") else -3, 4))
        p[tuple(key)] = Fraction(rng.choice([-1, 1]) * rng.randint(1, 30), rng.randint(1, 12))
    return p


# ------------------------------------------------------------ C14
WRT = {"1fsv": ["k", "mu", "theta", "sigma_v", "rho"],
       "1fsvj": ["k", "mu", "theta", "sigma_v", "rho", "lambda", "mu_j", "sigma_j"],
       "2fsv": ["k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2"],
       "2fsvj": ["k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2", "lambda", "mu_j", "sigma_j"]}


def derivs(r, model, order, covs, nrand):
    t0 = time.time()
    mods = {n: importlib.import_module(f"ajdmom.mdl_{model}.{n}") for n in ("mom", "cmom", "cov")}
    d = {n: mods[n].dpoly for n in ("mom", "cmom")}
    d["cov"] = getattr(mods["cov"], "dpoly", d["mom"])
    T = Tape(r)
    polys = []
    for n in range(order + 1):
        for w, f in (("mom", "moment_y"), ("cmom", "cmoment_y")):
            polys.append((w, f"{f}({n})", getattr(mods[w], f)(n)))
    for a, b in covs:
        for f in ("moment_yy", "cov_yy"):
            polys.append(("cov", f"{f}({a},{b})", getattr(mods["cov"], f)(a, b)))
    kfs = {w: tuple(p.keyfor) for w, _, p in polys}
    for i in range(nrand):
        for w in ("mom", "cmom"):
            # negative, zero and repeated exponents in every position
            p = rnd_poly(r.rng, kfs[w], r.rng.randint(1, 8),
                         {n: (lambda g: g.choice([-2, 0, 0, 1, 2, 3, 4, 5])) for n in kfs[w] if KIND[n] == "int"})
            polys.append((w, f"random{i}", p))
    for rep in range(2):
        T.env()
        for w, name, p in polys:
            of = enc(p)
            for x in WRT[model]:
                T.put(f"{model}.{w}.dpoly({name},{x}) @{rep}", lambda: d[w](p, x),
                      lambda: dict(op="deriv", of=of, wrt=x))
    r.sample(dict(formula=polys[-1][1], terms=len(polys[-1][2])))
    r.lib_s += time.time() - t0
    T.judge("derivs")


# ------------------------------------------------------------ C01, C02 on large operands
def big_coef(rng):
    n = rng.choice([rng.randint(1, 9), rng.randint(1, 10 ** 6), 2 ** 53 + rng.randint(1, 99),
                    3 ** rng.randint(40, 90), 10 ** rng.randint(18, 60) + 1])
    d = rng.choice([1, 1, rng.randint(2, 99), 2 ** rng.randint(1, 80), 7 ** rng.randint(10, 30), 10 ** 19 + 51])
    c = Fraction(rng.choice([-1, 1]) * n, d)
    return int(c) if c.denominator == 1 and rng.random() < 0.5 else c


def big_poly(rng, kf, n, lo=-4, hi=9):
    from ajdmom.poly import Poly
    p = Poly()
    p.set_keyfor(kf)
    for _ in range(n):
        p[tuple(rnd_exp(rng, x, lo, hi) for x in kf)] = big_coef(rng)
    return p


RING_KF = [("k^{-}", "mu"), ("e^{-kh}", "h", "k^{-}", "mu", "theta", "sigma_v", "rho"), ("theta",),
           ("e^{kt}", "t", "k^{-}", "v0-theta", "theta", "sigma", "rho", "sqrt(1-rho^2)")]


def ring(r, n, big, powers, ops=("add", "sub", "mul", "rmul", "pow", "merge", "mulx")):
    """ring operations on large operands with large coefficients, and on high powers"""
    from ajdmom.poly import Poly
    t0 = time.time()
    rng, T = r.rng, Tape(r)

    def do(ident, f, p, q, call, **more):
        before = [(x.keyfor, dict(x)) for x in (p, q)]
        ep, eq = enc(p), enc(q)
        out = []

        def run():
            out.append(call())
            return out[0]

        def event():
            after = [(x.keyfor, dict(x)) for x in (p, q)]
            if f == "merge":
                after[0] = before[0]
            return dict(op="ring", f="add" if f == "merge" else f, p=ep, q=eq, same=after == before,
                        zeros=sum(1 for v in out[0].values() if v == 0), **more)
        T.put(f"{f} {ident}", run, event)

    def merged(p, q):
        got = p.merge(q)
        if not isinstance(got, Poly) or got.keyfor != p.keyfor or dict(got) != dict(p):
            raise TypeError(f"merge returned {type(got).__name__}, not the updated polynomial")
        return p
    for i in range(n):
        if i % 5 == 0:
            T.env()
        kf = rng.choice(RING_KF)
        p, q = big_poly(rng, kf, rng.randint(1, big)), big_poly(rng, kf, rng.randint(1, big))
        for k in list(p)[:rng.choice([0, 1, 3, 10 ** 6])]:      # terms in common, some of which cancel
            q[k] = rng.choice([p[k], -p[k], big_coef(rng)])
        size = f"{len(p)}x{len(q)} {kf} #{i}"
        if "add" in ops:
            do(size, "add", p, q, lambda: p + q)
            do(size, "sub", p, q, lambda: p - q)
            do(size, "sub", q, p, lambda: q - p)
        if "rmul" in ops:
            c = rng.choice([0, 1, -1, big_coef(rng), big_coef(rng)])
            do(f"{c} " + size, "rmul", p, q, lambda: c * p, c=fp(c))
        if "mul" in ops:
            do(size, "mul", p, q, lambda: p * q)
            a, b = p + q, p - q                              # (p+q)(p-q): the mixed terms cancel
            do("cancel " + size, "mul", a, b, lambda: a * b)
        if "mulx" in ops:
            kf2, kf3 = rng.choice(RING_KF), rng.choice(RING_KF)
            u = big_poly(rng, kf2, rng.randint(1, big))
            ix = [[rng.randint(-1, len(x) - 1) for _ in kf3] for x in (kf, kf2)]
            wrap = rng.choice([lambda y: tuple(y), lambda y: list(y)])
            do(f"{ix} " + size, "mulx", p, u, lambda: p.mul_poly(u, wrap(ix), kf3), ix=ix, kf=list(kf3))
        if "merge" in ops:
            m = Poly(p)
            m.set_keyfor(kf)
            do(size, "merge", m, q, lambda: merged(m, q))
    if "pow" in ops:
        for m in powers:
            for terms in (1, 2, 3) if m <= 12 else (1, 2):
                T.env()
                kf = rng.choice(RING_KF)
                p = big_poly(rng, kf, terms)
                if terms == 2 and m % 2:
                    p = Poly({k: rng.choice([-1, 1, 2]) for k in p})
                    p.set_keyfor(kf)
                do(f"{len(p)} terms to {m}", "pow", p, p, lambda: p ** m, n=m)
    r.lib_s += time.time() - t0
    r.sample({k: v for k, v in T.ev[-1].items() if k in ("op", "f", "id", "n")})
    T.judge("ring")


# ------------------------------------------------------------ C04
def integrals(r, reach, mmax):
    t0 = time.time()
    from ajdmom import ito_mom, itos_mom
    T = Tape(r)
    e1, e2 = getattr(ito_mom, "int_et", None), getattr(itos_mom, "int_et", None)
    fz = attr("ajdmom.ito_cond_mom", "int_et_fZ")
    for rep in range(2):
        T.env()
        for m in range(mmax + 1):
            for n in range(-reach, reach + 1):
                if e1:
                    T.put(f"ito_mom.int_et({n},{m})", lambda: e1(n, m),
                          lambda: dict(op="integral", n1=n, n2=0, m=m))
                if fz:
                    T.put(f"int_et_fZ({n},{m},0)", lambda: fz(n, m, 0),
                          lambda: dict(op="integral", n1=n, n2=0, m=m))
                for n2 in range(-reach, reach + 1):
                    if e2 and (abs(n) <= 4 and abs(n2) <= 4 or n == -n2 or n == n2):
                        T.put(f"itos_mom.int_et({n},{n2},{m})", lambda: e2(n, n2, m),
                              lambda: dict(op="integral", n1=n, n2=n2, m=m))
        # high powers of time, large exponents
        for m in range(mmax + 1, 3 * mmax + 12, 2 if rep else 3):
            for n, n2 in ((0, 0), (1, 0), (-1, 0), (r.rng.randint(2, 40), 0), (r.rng.randint(-40, -2), 0),
                          (r.rng.randint(1, 12), r.rng.randint(-12, -1)), (r.rng.randint(-12, 12), r.rng.randint(1, 12))):
                if e1 and n2 == 0:
                    T.put(f"ito_mom.int_et({n},{m})", lambda: e1(n, m), lambda: dict(op="integral", n1=n, n2=0, m=m))
                if fz and n2 == 0:
                    T.put(f"int_et_fZ({n},{m},0)", lambda: fz(n, m, 0), lambda: dict(op="integral", n1=n, n2=0, m=m))
                if e2 and abs(n) <= 16:
                    T.put(f"itos_mom.int_et({n},{n2},{m})", lambda: e2(n, n2, m),
                          lambda: dict(op="integral", n1=n, n2=n2, m=m))
        T.env(from_zero=False)
        for m in list(range(mmax + 1)) + [20, 25, 31]:
            for n in range(-reach, reach + 1):
                for N in (1, 2, 3):
                    if fz:
                        T.put(f"int_et_fZ({n},{m},{N})", lambda: fz(n, m, N),
                              lambda: dict(op="integral", n1=n, n2=0, m=m))
    r.sample(T.ev[1])
    # a negative power of time is refused
    for m in (-1, -2, -5):
        for n in (-2, 0, 1, 3):
            for name, f in (("ito_mom.int_et", e1 and (lambda: e1(n, m))),
                            ("itos_mom.int_et", e2 and (lambda: e2(n, 1, m))),
                            ("int_et_fZ", fz and (lambda: fz(n, m, 1)))):
                if f:
                    try:
                        f()
                        r.fail(f"{name}({n},{m})", "ValueError", "a formula")
                    except ValueError:
                        r.good()
                    except Exception as ex:
                        r.fail(f"{name}({n},{m})", "ValueError", type(ex).__name__)
    r.lib_s += time.time() - t0
    T.judge("integrals")


# ------------------------------------------------------------ C28
JUMPS = ("l_{1:n}", "o_{1:n}", "p_{2:n}", "q_{2:n}")
KF_FSV = ("e^{kt}", "t", "k^{-}", "v_0-theta", "theta", "sigma", "sigma/2k", "rho-sigma/2k", "sqrt(1-rho^2)")
KF_VVJ = ("e^{kt}", "t", "k^{-}", "v0-theta", "theta", "sigma") + JUMPS + \
         ("sigma/2k", "rho-sigma/2k", "sqrt(1-rho^2)")
KF_SVCJ = ("e^{kt}", "t", "k^{-}", "mu", "v0-theta", "theta", "sigma", "rho", "sqrt(1-rho^2)",
           "lmbd", "mu_v", "rhoJ", "mu_s", "sigma_s")


def even(g):
    return g.choice([0, 0, 2, 4, 6])


def rewrites(r, n, order):
    t0 = time.time()
    rng = r.rng
    T = Tape(r)
    ev = {"sqrt(1-rho^2)": even}
    S = {k: attr(*k) for k in [("ajdmom.utils", "simplify_rho"), ("ajdmom.mdl_1fsv.cond_cmom", "simplify"),
                               ("ajdmom.mdl_svvj.cond2_cmom", "simplify"),
                               ("ajdmom.mdl_svvj.cond2_cmom", "classify"),
                               ("ajdmom.mdl_svvj.cond2_cmom", "write_to_subpolys"),
                               ("ajdmom.mdl_svcj.cond_mom", "expand_sqrt"),
                               ("ajdmom.mdl_svcj.cond_mom", "enlarge"),
                               ("ajdmom.mdl_svcj.cond_ieii_ieziziz_mom", "expand_ieziziz"),
                               ("ajdmom.mdl_srjd.mom", "expand"), ("ajdmom.mdl_svcj.cmom", "remove_mu_column")]}

    def do(mod, name, p, *a, check=None, tag=""):
        f = S[(mod, name)]
        if f is None:
            return
        of = [enc(p)]
        ident = f"{mod[7:]}.{name}({tag}{''.join(',' + str(x) for x in a if is_int(x))})"
        T.put(ident, lambda: f(p, *a), lambda: dict(op="same", of=of))
        if enc(p) != of[0] and name != "remove_mu_column":
            r.fail(ident, "the argument is unchanged", "changed")
        if check and T.ev[-1]["op"] == "same":
            why = check(T.ev[-1]["got"])
            if why:
                r.fail(ident, why, [g["kf"] for g in T.ev[-1]["got"]])

    def names(*kf):
        return lambda got: None if [tuple(g["kf"]) for g in got] == [tuple(kf)] else f"names {kf}"

    def levels(got):
        for i, g in enumerate(got):
            ls = {len(t[1][6]) if "l_{1:n}" in g["kf"] else 0 for t in g["t"]}
            if len(ls) > 1:
                return "one level of summation per group"
            if (ls == {0}) != ("l_{1:n}" not in g["kf"]):
                return "jump names only where there are jumps"
        return None
    V, F1 = "ajdmom.mdl_svvj.cond2_cmom", "ajdmom.mdl_1fsv.cond_cmom"
    tail = ("e^{-kt}", "t", "k^{-}", "v0-theta", "theta", "sigma") + JUMPS
    for rep in range(2):
        T.env(njump=2 + rep)
        for i in range(n):
            tag = f"random{i}@{rep}"
            m = rng.randint(1, 9)
            rn = ("rho", "sqrt(1-rho^2)")
            pre = tuple(rng.sample(["e^{-kt}", "t", "k^{-}", "theta", "sigma", "mu"], rng.randint(0, 4)))
            post = tuple(rng.sample(["lmbd", "mu_v", "mu_s"], rng.randint(0, 2)))
            do("ajdmom.utils", "simplify_rho", rnd_poly(rng, pre + rn + post, m, ev), len(pre) + 1, tag=tag,
               check=names(*pre, "rho", *post))
            p = rnd_poly(rng, KF_FSV, m, ev)
            do(F1, "simplify", p, 1, tag=tag, check=names("e^{-kt}", *KF_FSV[1:]))
            do(F1, "simplify", p, 2, tag=tag,
               check=names("e^{-kt}", "t", "k^{-}", "v_0-theta", "theta", "sigma", "rho"))
            do(F1, "simplify", p, 3, tag=tag,
               check=names("e^{-kt}", "t", "k^{-}", "v_0", "theta", "sigma", "rho"))
            lv = rng.choice([(0,), (0, 1), (0, 1, 2), (1,), (1, 2), (0, 2)])
            p = rnd_poly(rng, KF_VVJ, m, ev, levels=lv)
            do(V, "simplify", p, tag=tag, check=names(*tail, *KF_VVJ[10:]))
            do(V, "simplify", p, 1, tag=tag, check=names(*tail, "rho"))
            do(V, "classify", rnd_poly(rng, tail + rng.choice([KF_VVJ[10:], ("rho",)]), m, ev, levels=lv),
               tag=tag, check=levels)
            p = rnd_poly(rng, KF_SVCJ, m, ev)
            do("ajdmom.mdl_svcj.cond_mom", "expand_sqrt", p, tag=tag, check=names(*KF_SVCJ[:8], *KF_SVCJ[9:]))
            small = tuple(x for x in KF_SVCJ if rng.random() < 0.6) or ("t",)
            do("ajdmom.mdl_svcj.cond_mom", "enlarge", rnd_poly(rng, tuple(rng.sample(small, len(small))), m, ev),
               list(KF_SVCJ), tag=tag, check=names(*KF_SVCJ))
            do("ajdmom.mdl_srjd.mom", "expand", rnd_poly(rng, ("k^{-}", "E[v]", "sigma", "lmbd", "mu_v"), m), tag=tag,
               check=names("k^{-}", "theta", "sigma", "lmbd", "mu_v"))
            kf = ("e^{kt}", "t", "k^{-}", "mu", "E[v]", "theta", "sigma", "rho", "lmbd", "mu_v", "rhoJ",
                  "mu_s", "sigma_s")
            do("ajdmom.mdl_svcj.cmom", "remove_mu_column",
               rnd_poly(rng, kf, m, {"mu": lambda g: 0}), tag=tag,
               check=names("e^{-kt}", *kf[1:3], *kf[4:]))
        T.env(from_zero=False)
        for i in range(n):
            kf = ("e^{kt}", "e^{ks}", "t-s", "k^{-}", "lmbd", "mu_v", "mu_s", "sigma_s")
            do("ajdmom.mdl_svcj.cond_ieii_ieziziz_mom", "expand_ieziziz", rnd_poly(rng, kf, 5), tag=f"random{i}",
               check=names("e^{kt}", "t", "e^{ks}", "s", *kf[3:]))
        # the library's own formulas
        T.env(njump=2 + rep)
        from ajdmom.mdl_1fsv import cond_cmom as fc
        from ajdmom.mdl_svvj import cond2_cmom as vc
        from ajdmom.mdl_srjd import mom as sm
        from ajdmom.mdl_svcj import cmom as cc
        for k, p in enumerate(fc.cmoments_y_to(order)):
            for tp in (1, 2, 3):
                do(F1, "simplify", p, tp, tag=f"cmoment {k}")
        for k, p in enumerate(vc.cmoments_y_to(order)):
            do(V, "simplify", p, tag=f"cmoment {k}")
            do(V, "simplify", p, 1, tag=f"cmoment {k}")
            do(V, "classify", vc.simplify(p), tag=f"cmoment {k}", check=levels)
        for k in range(order + 2):
            do("ajdmom.mdl_srjd.mom", "expand", sm.moment_v(k, simplify=False), tag=f"moment {k}")
        for k in range(3):
            do("ajdmom.mdl_svcj.cmom", "remove_mu_column", cc.cmoment_y(k), tag=f"cmoment {k}")
    # odd powers of sqrt(1-rho^2) cannot be eliminated; mu cannot be dropped when it occurs
    from ajdmom.poly import Poly
    for mod, name, kf, a in (("ajdmom.utils", "simplify_rho", ("rho", "sqrt(1-rho^2)"), (1,)),
                             ("ajdmom.mdl_svcj.cond_mom", "expand_sqrt", KF_SVCJ, ()),
                             ("ajdmom.mdl_svcj.cmom", "remove_mu_column",
                              KF_SVCJ[:4] + ("E[v]",) + KF_SVCJ[5:8] + KF_SVCJ[9:], ())):
        f = S[(mod, name)]
        if f is None:
            continue
        j = kf.index("mu") if name == "remove_mu_column" else kf.index("sqrt(1-rho^2)")
        for x in (1, 3):
            p = Poly({tuple(x if i == j else 1 for i in range(len(kf))): Fraction(1, 2)})
            p.set_keyfor(kf)
            try:
                f(p, *a)
                r.fail(f"{mod}.{name} odd", "an error", "a formula")
            except Exception:
                r.good()
    r.sample(T.ev[1])
    r.lib_s += time.time() - t0
    T.judge("rewrites")
