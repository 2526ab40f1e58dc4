"""Units on numbers: the value of a formula at a parameter point (TraceScalar)."""
import importlib
import math
import time
from fractions import Fraction
from itertools import permutations

import polys
import vlib

N, B = 5, 10 ** 4


def real(x):
    """a number as a multi-limb real of the specification"""
    if isinstance(x, bool):
        raise TypeError("bool")
    if isinstance(x, float) and not math.isfinite(x):
        raise ValueError(f"{x}")
    x = Fraction(x)
    if x == 0:
        return dict(s=0, e=0, m=[0] * N)
    s, a, e = (1 if x > 0 else -1), abs(x), 0
    # B^(e-1) <= a < B^e
    e = (len(str(a.numerator)) - len(str(a.denominator))) // 4
    while Fraction(B) ** e <= a:
        e += 1
    while Fraction(B) ** (e - 1) > a:
        e -= 1
    n = int(a * Fraction(B) ** (N - e))
    m = []
    for _ in range(N):
        m.append(n % B)
        n //= B
    return dict(s=s, e=e, m=m[::-1])


def unreal(r):
    return r["s"] * sum(m * float(B) ** (r["e"] - 1 - i) for i, m in enumerate(r["m"]))


ZERO = ["k1", "k2", "th1", "s1", "th2", "s2", "mu", "rho", "srho", "lam", "muv", "mus", "sgs", "rhoJ",
        "lam2", "v1", "v2", "t", "s"]
# names of the parameters in the library's dictionaries
TO_ENV = {"k": "k1", "k1": "k1", "k2": "k2", "theta": "th1", "theta1": "th1", "theta2": "th2",
          "sigma": "s1", "sigma_v": "s1", "sigma_v1": "s1", "sigma_v2": "s2", "mu": "mu", "rho": "rho",
          "lambda": "lam", "lmbd": "lam", "mu_v": "muv", "mu_j": "mus", "mu_s": "mus", "sigma_j": "sgs",
          "sigma_s": "sgs", "rhoJ": "rhoJ", "rho_J": "rhoJ", "lmbd_s": "lam2", "v0": "v1", "h": "t",
          "ub": "t", "lb": "s"}
# correlations whose sqrt(1 - rho^2) is a short decimal
RHO = [(Fraction(a, b), Fraction(c, b)) for a, b, c in
       ((0, 1, 1), (3, 5, 4), (-3, 5, 4), (4, 5, 3), (-4, 5, 3), (1, 1, 0), (-1, 1, 0), (7, 25, 24),
        (-24, 25, 7), (-7, 25, 24))]


def draw(rng, names, special):
    """a parameter point; special forces the edge cases in turn (50 and more: very large and very small
    values)"""
    for _ in range(200):
        par, sr = draw1(rng, names, special)
        # the formulas have (removable) poles where a rate is a multiple of the other
        if "k1" not in par or all(abs(a * par["k1"] - b * par["k2"]) > 0.02 * a * par["k1"]
                                  for a in range(1, 5) for b in range(1, 5)):
            return par, sr
    raise RuntimeError("no parameter point")


def draw1(rng, names, special):
    par, sr = {}, Fraction(1)
    wide = special >= 50
    dec = lambda lo, hi: round(rng.uniform(lo, hi), rng.choice([1, 2, 3, 4])) or 0.1
    for n in names:
        if n == "rho":
            r, sr = RHO[(special or rng.randrange(len(RHO))) % len(RHO)]
            par[n] = float(r) if rng.random() < 0.7 or r.denominator > 1 else int(r)
        elif wide and n in ("rhoJ", "rho_J", "mu", "mu_j", "mu_s"):
            par[n] = rng.choice([-25, 40.5, 0.001, -0.004, -3, dec(-1.5, 1.5)])
        elif wide and n in ("lambda", "lmbd", "lmbd_s", "v0"):
            par[n] = rng.choice([0, 0.0, 1e-3, 17, 60.25, dec(0.05, 2)])
        elif wide and n == "lb":
            par[n] = rng.choice([0, 0.002, 3])
        elif wide and n != "h" and n != "ub":
            par[n] = rng.choice([0.0015, 0.02, 4, 12.5, 30, dec(0.1, 2)])
        elif wide:
            par[n] = rng.choice([0.0005, 0.004, 5, 21, 30.5])
        elif n in ("mu", "mu_j", "mu_s", "rhoJ", "rho_J"):
            par[n] = rng.choice([0, 0.0, dec(-1.5, 1.5)]) if special % 3 == 1 else dec(-1.5, 1.5)
        elif n in ("lambda", "lmbd", "lmbd_s", "sigma_s", "sigma_j", "mu_v", "v0"):
            par[n] = 0 if special % 4 == 2 and rng.random() < 0.4 else dec(0.05, 2)
        elif n in ("h", "ub"):
            par[n] = rng.choice([1, 2, dec(0.1, 2.5)])
        elif n == "lb":
            par[n] = rng.choice([0, dec(0.05, 0.9)])
        else:
            par[n] = rng.choice([1, dec(0.1, 2)]) if special % 2 else dec(0.1, 2)
    top = 24 / max(par[n] for n in par if n in ("k", "k1", "k2"))
    for n in ("h", "ub", "lb"):
        if n in par and par[n] > top:
            par[n] = round(top, 3)
        # 1 - e^{-kt} loses all its digits as kt vanishes
        elif n in par and n != "lb" and par[n] * min(par[x] for x in par if x in ("k", "k1", "k2")) < 0.005:
            par[n] = round(0.005 / min(par[x] for x in par if x in ("k", "k1", "k2")), 4)
    if "lb" in par:
        par["ub"] = par["ub"] + par["lb"]
    if "v0" in par and special == 3:
        par["v0"] = par["theta"]
    return par, sr


def env_of(par, sr, path=()):
    e = {n: real(0) for n in ZERO}
    e["k1"] = e["k2"] = real(1)
    for n, v in par.items():
        if n in TO_ENV:
            e[TO_ENV[n]] = real(v)
    e["srho"] = real(sr)
    order = sorted(range(len(path)), key=lambda j: path[j][0])
    e["path"] = [dict(S=real(s), J=real(J), r=order.index(j)) for j, (s, J) in enumerate(path)]
    return e


class Numbers:
    def __init__(self, r, tol=1e-11):
        self.r, self.ev, self.notes, self.tol = r, [], {}, real(Fraction(tol))
        self.t0 = time.time()

    def env(self, par, sr, path=()):
        self.ev.append(dict(op="env", env=env_of(par, sr, path)))

    def put(self, ident, formula, number):
        """formula(): the library's formula, number(): the number that should be its value"""
        vlib.phase("lib " + ident)
        try:
            of = enc_real(formula())
        except Exception as ex:
            self.ev.append(dict(op="broken", id=ident))
            self.notes[ident] = f"the formula: {type(ex).__name__}: {ex}"
            return
        try:
            got = number()
            if isinstance(got, complex):
                raise ValueError("complex")
            e = dict(op="num", id=ident, of=of, got=real(got), tol=self.tol)
            self.notes[ident] = f"the library: {got!r}"
        except Exception as ex:
            e = dict(op="broken", id=ident)
            self.notes[ident] = f"{type(ex).__name__}: {ex}"
        self.ev.append(e)

    def judge(self, tag):
        self.r.lib_s += time.time() - self.t0
        for e in self.ev:
            if e["op"] == "num":
                self.r.sample(dict(call=e["id"], number=unreal(e["got"]), terms=len(e["of"]["t"])))
        self.r.judge("TraceScalar", "TraceScalar.cfg", self.ev, tag, self.notes)


def enc_real(poly):
    return polys.enc(poly, real)


M = importlib.import_module
# how the libraries' numbers are asked for: (module, formula function, scalar function)
RET = {"1fsv": ["k", "mu", "theta", "sigma_v", "rho", "h"],
       "1fsvj": ["k", "mu", "theta", "sigma_v", "rho", "h", "lambda", "mu_j", "sigma_j"],
       "2fsv": ["k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2", "h"],
       "2fsvj": ["k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2", "h", "lambda", "mu_j",
                 "sigma_j"]}


def returns(r, model, order, covs, points, derivs, first=0):
    mom, cmom, cov = (M(f"ajdmom.mdl_{model}.{x}") for x in ("mom", "cmom", "cov"))
    D = getattr(cov, "dpoly", mom.dpoly)
    T = Numbers(r)
    for i in range(first, first + points):
        par, sr = draw(r.rng, RET[model], i)
        keep = dict(par)
        T.env(par, sr)
        tag = f"@{i}"
        for n in range(0 if i == 1 else 1, order + 1):
            T.put(f"{model}.m({n}) {tag}", lambda: mom.moment_y(n), lambda: mom.m(n, par))
            T.put(f"{model}.cm({n}) {tag}", lambda: cmom.cmoment_y(n), lambda: cmom.cm(n, par))
        for a, b in covs:
            T.put(f"{model}.cov({a},{b}) {tag}", lambda: cov.cov_yy(a, b), lambda: cov.cov(a, b, par))
        for w in derivs if i % 2 == 0 else ():
            n, (a, b) = r.rng.randint(2, order), r.rng.choice(covs)
            T.put(f"{model}.dm({n},{w}) {tag}", lambda: mom.dpoly(mom.moment_y(n), w),
                  lambda: mom.dm(n, par, w))
            T.put(f"{model}.dcm({n},{w}) {tag}", lambda: cmom.dpoly(cmom.cmoment_y(n), w),
                  lambda: cmom.dcm(n, par, w))
            T.put(f"{model}.dcov({a},{b},{w}) {tag}", lambda: D(cov.cov_yy(a, b), w),
                  lambda: cov.dcov(a, b, par, w))
        # the decoding itself, on arbitrary formulas
        for name, mod, f in (("mom", mom, mom.moment_y), ("cmom", cmom, cmom.cmoment_y)):
            for j in range(3 if hasattr(mod, "poly2num") else 0):
                p = rnd_formula(r.rng, f(2).keyfor, 5, par)
                T.put(f"{model}.{name}.poly2num {tag}/{j}", lambda: p, lambda: mod.poly2num(p, par))
        if par != keep:
            r.fail(f"{model} {tag}", "parameters unchanged", par)
    T.judge("returns")


def rnd_formula(rng, kf, n, par, levels=(0,), njump=0):
    """a random formula that can be evaluated at par (no negative power of zero)"""
    ex = {}
    for x in kf:
        k = polys.KIND[x]
        if x == "sqrt(1-rho^2)":
            ex[x] = lambda g: g.choice([0, 2, 4])
        elif x == "J_{1:n}":
            ex[x] = lambda g: tuple(g.randint(0, 3) for _ in range(njump))
        elif k == "t0":
            def t0(g):
                out = []
                for _ in range(g.randint(1, 3)):
                    while True:
                        a, b = g.randint(-3, 4), g.randint(-3, 4)
                        d = a * Fraction(par["k1"]) + b * Fraction(par["k2"])
                        if abs(d) > 0.2 and all((a, b) != y[:2] for y in out):
                            break
                    out.append((a, b, g.randint(1, 3)))
                return tuple(out)
            ex[x] = t0
    return polys.rnd_poly(rng, tuple(kf), n, ex, levels)


def par_names(*groups):
    return [n for g in groups for n in g]


SR = ["v0", "k", "theta", "sigma", "lmbd", "mu_v", "h"]
SV = ["v0", "mu", "k", "theta", "sigma", "rho", "h", "lmbd", "mu_v", "rhoJ", "mu_s", "sigma_s"]


def variance(r, order, points, first=0):
    """srjd and the conditional central moments of 1fsv"""
    s = {x: M(f"ajdmom.mdl_srjd.{x}") for x in ("cond_mom", "cond_cmom", "iez_mom", "iez_cmom",
                                                "cond_ie_iez_mom", "cond_ie_iez_cmom")}
    f1 = M("ajdmom.mdl_1fsv.cond_cmom")
    T = Numbers(r)
    for i in range(first, first + points):
        par, sr = draw(r.rng, SR, i)
        keep = dict(par)
        T.env(par, sr)
        g = f"@{i}"
        for n in range(order + 1):
            T.put(f"srjd.m_x({n}) {g}", lambda: s["cond_mom"].moment_x(n), lambda: s["cond_mom"].m_x(n, par))
            T.put(f"srjd.m({n}) {g}", lambda: s["cond_mom"].moment_v(n), lambda: s["cond_mom"].m(n, par))
            T.put(f"srjd.cm_x({n}) {g}", lambda: s["cond_cmom"].cmoment_x(n),
                  lambda: s["cond_cmom"].cm_x(n, par))
            T.put(f"srjd.cm({n}) {g}", lambda: s["cond_cmom"].cmoment_v(n), lambda: s["cond_cmom"].cm(n, par))
            a = s["cond_ie_iez_mom"]
            T.put(f"srjd.m_ie({n}) {g}", lambda: a.moment_ie(n), lambda: a.m_ie(n, par))
            b = s["cond_ie_iez_cmom"]
            T.put(f"srjd.c.m_ie({n}) {g}", lambda: b.moment_ie(n), lambda: b.m_ie(n, par))
            for k in range(order + 1 - n):
                T.put(f"srjd.m_ie_iez({n},{k}) {g}", lambda: a.moment_ie_iez(n, k),
                      lambda: a.m_ie_iez(n, k, par))
                T.put(f"srjd.cm_ie_iez({n},{k}) {g}", lambda: b.cmoment_ie_iez(n, k),
                      lambda: b.cm_ie_iez(n, k, par))
        for name in ("cond_mom", "cond_ie_iez_mom", "cond_ie_iez_cmom"):
            if hasattr(s[name], "poly2num"):
                src = (s[name].moment_x(1) if name == "cond_mom" else s[name].moment_ie(1))
                p = rnd_formula(r.rng, src.keyfor, 6, par)
                T.put(f"srjd.{name}.poly2num {g}", lambda: p, lambda: s[name].poly2num(p, par))
        if par != keep:
            r.fail(f"srjd {g}", "parameters unchanged", par)
        par, sr = draw(r.rng, ["k", "lmbd", "mu_v", "ub", "lb"], i)
        T.env(par, sr)
        for n in range(order + 2):
            T.put(f"srjd.iez.m({n}) {g}", lambda: s["iez_mom"].moment_IEZ(n), lambda: s["iez_mom"].m(n, par))
            T.put(f"srjd.iez.cm({n}) {g}", lambda: s["iez_cmom"].cmoment_IEZ(n),
                  lambda: s["iez_cmom"].cm(n, par))
        par, sr = draw(r.rng, ["v0", "k", "h", "theta", "sigma_v", "rho"], i)
        T.env(par, sr)
        for n in range(order + 2):
            T.put(f"1fsv.cond_cm({n}) {g}", lambda: f1.simplify(f1.cmoments_y_to(n)[n], 2),
                  lambda: f1.cond_cm(n, par))
    T.judge("variance")


def svcj(r, order, points, first=0):
    c, cc, u, uc, z, zi = (M(f"ajdmom.mdl_svcj.{x}") for x in (
        "cond_mom", "cond_cmom", "mom", "cmom", "ieziziz_mom", "cond_ieii_ieziziz_mom"))
    T = Numbers(r)
    for i in range(first, first + points):
        par, sr = draw(r.rng, SV, i)
        keep = dict(par)
        T.env(par, sr)
        g = f"@{i}"
        for n in range(order + 1):
            T.put(f"svcj.cond m_y({n}) {g}", lambda: c.moment_y(n), lambda: c.m_y(n, par))
            T.put(f"svcj.cond cm_y({n}) {g}", lambda: cc.cmoment_y(n), lambda: cc.cm_y(n, par))
            T.put(f"svcj.unm_y({n}) {g}", lambda: u.moment_y(n), lambda: u.unm_y(n, par))
            T.put(f"svcj.cm_y({n}) {g}", lambda: uc.cmoment_y(n), lambda: uc.cm_y(n, par))
        for o in ((0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 3), (1, 1, 1), (2, 1, 0), (0, 1, 2), (3, 0, 0)):
            T.put(f"svcj.m_ieziziz{o} {g}", lambda: z.moment_ieziziz(*o), lambda: z.m_ieziziz(o, par))
        for o in ((0,) * 6, (1, 0, 0, 1, 0, 0), (0, 2, 0, 0, 0, 1), (0, 0, 2, 0, 1, 0), (1, 1, 0, 0, 1, 1),
                  (2, 0, 0, 1, 0, 0), (1, 0, 0, 0, 0, 2)):
            T.put(f"svcj.m_ieii_ieziziz{o} {g}", lambda: zi.moment_ieii_ieziziz(*o),
                  lambda: zi.m_ieii_ieziziz(o, par))
        for name, mod, src in (("cond_mom", c, c.moment_y), ("mom", u, u.moment_y)):
            if hasattr(mod, "poly2num"):
                p = rnd_formula(r.rng, src(1).keyfor, 6, par)
                T.put(f"svcj.{name}.poly2num {g}", lambda: p, lambda: mod.poly2num(p, par))
        if par != keep:
            r.fail(f"svcj {g}", "parameters unchanged", par)
    T.judge("svcj")


# ------------------------------------------------------------ given a jump path
PATH = {"srjd": ["v0", "k", "theta", "sigma", "h"],
        "svvj": ["v0", "mu", "k", "theta", "sigma", "rho", "h"],
        "svij": ["v0", "mu", "k", "theta", "sigma", "rho", "h", "lmbd_s", "mu_s", "sigma_s"],
        "svcj": ["v0", "mu", "k", "theta", "sigma", "rho", "h", "mu_s", "rho_J", "sigma_s"]}


def jumps(rng, n, h, shuffle, wide=False):
    s = sorted({round(rng.uniform(0.02, 0.98) * h, 4 if h > 0.05 else 7) for _ in range(n)})
    if wide and n > 1:          # at the ends of the interval, and at the same time
        s[0], s[-1] = round(h / 1e4, 9), rng.choice([h, s[-1]])
        if n > 2:
            s[1] = s[2]
    if shuffle:
        rng.shuffle(s)
    J = [rng.choice([0.001, 12.5, 3]) if wide and rng.random() < .4 else round(rng.uniform(0.05, 1.5), 3) for _ in s]
    return s, J


def on_path(r, model, order, corder, njumps, points, first=0):
    a, b = M(f"ajdmom.mdl_{model}.cond2_mom"), M(f"ajdmom.mdl_{model}.cond2_cmom")
    T = Numbers(r)
    for i in range(first, first + points):
        for nj in njumps:
            par, sr = draw(r.rng, PATH[model], i)
            if nj == 0 and i % 2:
                s, J = [], []
            else:
                s, J = jumps(r.rng, nj, par["h"], shuffle=i % 2, wide=i >= 50)
            par["jumptime"], par["jumpsize"] = (tuple(s), tuple(J)) if i % 2 == 0 else (list(s), list(J))
            keep = dict(par, jumptime=type(par["jumptime"])(s), jumpsize=type(par["jumpsize"])(J))
            T.env(par, sr, list(zip(s, J)))
            g = f"{len(J)} jumps @{i}"
            lo = 0 if i == 0 else 1
            for n in range(lo, order + 1):
                f = {"srjd": lambda: a.moment_v(n), "svcj": lambda: a.moment_y(n, par["jumpsize"])}.get(
                    model, lambda: a.moment_y(n))
                T.put(f"{model}.m({n}) {g}", f, lambda: a.m(n, par))
            for n in range(lo, corder + 1):
                f = {"srjd": lambda: b.cmoment_v(n), "svcj": lambda: b.cmoment_y(n, par["jumpsize"])}.get(
                    model, lambda: b.cmoment_y(n))
                T.put(f"{model}.cm({n}) {g}", f, lambda: b.cm(n, par))
            for mod in (a, b):
                if hasattr(mod, "poly2num") and mod.poly2num.__module__ == mod.__name__:
                    kf = {"srjd": lambda: a.moment_v(1), "svcj": lambda: (
                        mod.moment_y if mod is a else mod.cmoment_y)(2, par["jumpsize"])}.get(
                        model, lambda: (mod.moment_y if mod is a else mod.cmoment_y)(2))().keyfor
                    p = rnd_formula(r.rng, kf, 5, par, (0, 1, 2, 3) if nj < 3 else (0, 1, 2), len(J))
                    T.put(f"{mod.__name__[7:]}.poly2num {g}", lambda: p, lambda: mod.poly2num(p, par))
                    # sums of many levels
                    for deep in {2: (4, 5), 3: (3, 4), 4: (3,)}.get(len(J), ()) if model == "svvj" or (i + nj) % 3 == 0 else ():
                        q = rnd_formula(r.rng, kf, 1, par, (deep,), len(J))
                        T.put(f"{mod.__name__[7:]}.poly2num {deep} levels {g}", lambda: q, lambda: mod.poly2num(q, par))
            if par != keep:
                r.fail(f"{model} {g}", "parameters unchanged", par)
    T.judge("path")
