"""Units on requests: the form of every formula, and requests without a meaning (TraceApi)."""
import importlib
import io
import time
from contextlib import redirect_stdout
from fractions import Fraction
from itertools import product

import polys
import vlib

JS = (0.11, 0.23, 0.37)


def upto(n, lo=0):
    return [(i,) for i in range(lo, n + 1)]


def box(k, n, lo=0):
    return [o for o in product(range(lo, n + 1), repeat=k) if sum(o) <= n]


def catalogue(T=False):
    """(name, module, function, kind, arguments, flags) of every kind of formula"""
    out = []

    def add(mod, fn, kind, args, zerofree=False, many=False, njump=0, name=None):
        for a in args:
            out.append(dict(id=f"{mod}.{name or fn}{a if len(a) != 1 else f'({a[0]})'}", mod="ajdmom." + mod,
                            fn=fn, kind=kind, args=a, zerofree=zerofree, many=many, njump=njump))
    x = 1 if T else 0
    for m, k, n, c in (("1fsv", "fsv", 5 + x, 4), ("1fsvj", "fsvj", 4 + x, 4), ("2fsv", "fsv2", 4 + x, 3),
                       ("2fsvj", "fsvj2", 4 + x, 3)):
        add(f"mdl_{m}.mom", "moment_y", k + "_mom", upto(n), True)
        add(f"mdl_{m}.cmom", "cmoment_y", k + "_cmom", upto(n), True)
        cs = [o for o in box(2, c) if min(o) > 0] + ([(0, 1), (1, 0)] if T else [])
        add(f"mdl_{m}.cov", "cov_yy", k + "_mom", cs, True)
        add(f"mdl_{m}.cov", "moment_yy", k + "_mom", cs, True)
    add("ito_mom", "moment_IEII", "ito", box(3, 4 + x))
    add("ito_mom", "moment_v", "ito_v", upto(8))
    add("itos_mom", "moment_IEI_IEII", "itos", box(5, 3 + x))
    add("ito_cond_mom", "moment_IEII", "ito_cond", box(3, 4 + x))
    add("cpp_mom", "mnorm", "norm", upto(9))
    add("cpp_mom", "mcpp", "cpp", upto(7))
    add("cpp_mom", "cmcpp", "cpp", upto(7))
    add("cpp_mom", "mcpp_original", "cpp_orig", upto(7))
    add("utils", "cmnorm", "cnorm", upto(9))
    add("mdl_1fsv.cond_cmom", "cmoments_y_to", "fsv_cond", upto(5 + x, 1), many=True)
    for f in ("moment_x", "moment_v"):
        add("mdl_srjd.cond_mom", f, "srjd_cond", upto(5 + x))
    for f in ("cmoment_x", "cmoment_v"):
        add("mdl_srjd.cond_cmom", f, "srjd_cond", upto(5 + x))
    add("mdl_srjd.mom", "moment_v", "srjd_mom", upto(6))
    add("mdl_srjd.cmom", "cmoment_v", "srjd_cmom", upto(6))
    add("mdl_srjd.cmom", "cond_cmoment_v", "srjd_condE", upto(5))
    for f, md in (("moment_v", "cond2_mom"), ("moment_IE", "cond2_mom"), ("cmoment_v", "cond2_cmom")):
        if f != "moment_IE":
            add("mdl_srjd." + md, f, "srjd_path", upto(5 + x))
    add("mdl_srjd.iez_mom", "moment_IEZ", "iez", upto(5))
    add("mdl_srjd.iez_cmom", "cmoment_IEZ", "iez", upto(5))
    add("mdl_srjd.cond_ie_iez_mom", "moment_ie_iez", "srjd_cond", box(2, 5))
    add("mdl_srjd.cond_ie_iez_cmom", "cmoment_ie_iez", "srjd_condE", box(2, 5))
    add("mdl_svcj.ieziziz_mom", "moment_ieziziz", "ieziziz", box(3, 4))
    add("mdl_svcj.cond_ieii_ieziziz_mom", "moment_ieii_ieziziz", "ieii_ieziziz", box(6, 2 + x))
    for md, f, k in (("cond_mom", "moment_y", "svcj_cond"), ("cond_cmom", "cmoment_y", "svcj_cond"),
                     ("mom", "moment_y", "svcj"), ("cmom", "cmoment_y", "svcj")):
        add("mdl_svcj." + md, f, k, upto(3 + x))
    for m in ("svvj", "svij"):
        add(f"mdl_{m}.cond2_mom", "moment_y", m, upto(4 + x, 1))
        add(f"mdl_{m}.cond2_cmom", "cmoment_y", m + "_c", upto(5 + x, 1))
        add(f"mdl_{m}.cond2_mom", "moments_y_to", m, upto(3 + x, 1), many=True)
        add(f"mdl_{m}.cond2_cmom", "cmoments_y_to", m + "_c", upto(4 + x, 1), many=True)
    for nj in range(0, 4):
        J = JS[:nj]
        add("mdl_svcj.cond2_mom", "moment_y", "svcj_path", [(n, J) for n in range(1, 4)], njump=nj)
        add("mdl_svcj.cond2_cmom", "cmoment_y", "svcj_path_c", [(n, J) for n in range(1, 4)], njump=nj)
        add("mdl_svcj.cond2_mom", "moments_y_to", "svcj_path", [(2, J)], njump=nj, many=True)
    # some orders far above the ones listed one by one
    add("ito_mom", "moment_IEII", "ito", [(8, 0, 0), (4, 2, 2), (2, 3, 4), (0, 10, 0), (1, 0, 10)])
    add("ito_mom", "moment_v", "ito_v", [(n,) for n in (12, 20, 33)])
    add("itos_mom", "moment_IEI_IEII", "itos", [(2, 2, 0, 0, 2), (2, 0, 2, 0, 2), (0, 0, 2, 2, 2), (1, 1, 1, 1, 2),
                                                (3, 1, 1, 1, 0), (0, 0, 0, 0, 6), (1, 0, 1, 0, 4)])
    add("ito_cond_mom", "moment_IEII", "ito_cond", [(8, 0, 0), (2, 2, 2), (1, 1, 4), (0, 0, 6), (0, 7, 0)])
    add("cpp_mom", "mnorm", "norm", [(n,) for n in (14, 23, 40)])
    for f, k in (("mcpp", "cpp"), ("cmcpp", "cpp"), ("mcpp_original", "cpp_orig")):
        add("cpp_mom", f, k, [(11,), (14,)])
    add("utils", "cmnorm", "cnorm", [(n,) for n in (22, 31, 48)])
    add("mdl_1fsv.cond_cmom", "cmoments_y_to", "fsv_cond", [(7,)], many=True)
    for md, f, k, ns in (("cond_mom", "moment_v", "srjd_cond", (7, 8)), ("cond_cmom", "cmoment_v", "srjd_cond", (7, 8)),
                         ("mom", "moment_v", "srjd_mom", (7, 8)), ("cmom", "cmoment_v", "srjd_cmom", (8,)),
                         ("cond2_mom", "moment_v", "srjd_path", (7, 8)), ("cond2_cmom", "cmoment_v", "srjd_path", (7, 8)),
                         ("iez_mom", "moment_IEZ", "iez", (9, 16)), ("iez_cmom", "cmoment_IEZ", "iez", (9, 14))):
        add("mdl_srjd." + md, f, k, [(n,) for n in ns])
    add("mdl_svcj.ieziziz_mom", "moment_ieziziz", "ieziziz", [(5, 0, 0), (0, 9, 0), (0, 0, 9), (2, 2, 2), (1, 2, 3)])
    for md, f, k in (("cond_mom", "moment_y", "svcj_cond"), ("cond_cmom", "cmoment_y", "svcj_cond"),
                     ("mom", "moment_y", "svcj"), ("cmom", "cmoment_y", "svcj")):
        add("mdl_svcj." + md, f, k, [(4,)])
    return out


def tagged(x):
    if polys.is_int(x):
        return dict(k="int", v=[x])
    if isinstance(x, tuple) and all(map(polys.is_int, x)):
        return dict(k="tup" if x else "tup", v=list(x))
    if isinstance(x, tuple) and all(isinstance(y, tuple) and all(map(polys.is_int, y)) for y in x):
        return dict(k="tups", v=[list(y) for y in x])
    return dict(k="bad", v=[str(x)])


def form(poly, kind, zerofree=False, njump=0):
    kf = [str(n) for n in poly.keyfor]
    ts = []
    for key, c in poly.items():
        if not isinstance(key, tuple):
            raise TypeError(f"key {key!r}")
        k = [tagged(x) for x in key]
        for n, x in zip(kf, k):
            if n == vlib.T0 and x["v"] == []:
                x["k"] = "tups"
        ts.append(dict(key=k, type=type(c).__name__, zero=c == 0))
    return dict(op="form", kind=kind, kf=kf, t=ts, zerofree=zerofree, njump=njump)


class Log:
    def __init__(self, r):
        self.r, self.ev, self.notes, self.t0 = r, [], {}, time.time()

    def form(self, ident, call, kind, zerofree=False, many=False, njump=0):
        vlib.phase("lib " + ident)
        try:
            with redirect_stdout(io.StringIO()):
                got = call()
            if many:
                if not isinstance(got, (list, tuple)) or not got:
                    raise TypeError(f"no list of formulas: {type(got).__name__}")
            for i, p in enumerate(got if many else [got]):
                self.ev.append(dict(form(p, kind, zerofree, njump), id=f"{ident}[{i}]" if many else ident))
        except Exception as ex:
            self.ev.append(dict(op="broken", id=ident, seen=f"{type(ex).__name__}: {ex}"[:200]))

    def ask(self, ident, call, what, args=(), model="", wrt="", own=(), ka=(), kb=()):
        vlib.phase("lib " + ident)
        try:
            with redirect_stdout(io.StringIO()):
                got = call()
            out = ("formula" if hasattr(got, "keyfor") or isinstance(got, (list, dict)) else
                   "number" if isinstance(got, (int, float, Fraction)) or hasattr(got, "dtype") else
                   type(got).__name__)
        except Exception as ex:
            out = type(ex).__name__
            if isinstance(ex, ValueError):
                out = "ValueError"
            self.notes[ident] = str(ex)[:200]
        self.ev.append(dict(op="ask", id=ident, what=what, args=list(args), model=model, wrt=wrt,
                            own=list(own), ka=list(ka), kb=list(kb), got=out))

    def judge(self, tag):
        self.r.lib_s += time.time() - self.t0
        for e in self.ev[:: max(1, len(self.ev) // 3)]:
            self.r.sample({k: v for k, v in e.items() if k in ("id", "kind", "what", "got", "kf")})
        self.r.judge("TraceApi", "TraceApi.cfg", self.ev, tag, self.notes)


def canon(r, part, parts, deep=False):
    L = Log(r)
    # neighbours go to different parts, so that every part exercises every module
    for i, c in enumerate(catalogue(deep)):
        if i % parts == part:
            L.form(c["id"], lambda: getattr(importlib.import_module(c["mod"]), c["fn"])(*c["args"]),
                   c["kind"], c["zerofree"], c["many"], c["njump"])
    L.judge("canon")


def canon_derived(r, order):
    """derivatives, rewritings and arithmetic on formulas"""
    from ajdmom import ito_mom, itos_mom, ito_cond_mom
    L = Log(r)
    M = importlib.import_module
    DER = __import__("props").DERIVS
    for m, k in (("1fsv", "fsv"), ("1fsvj", "fsvj"), ("2fsv", "fsv2"), ("2fsvj", "fsvj2")):
        mom, cmom = M(f"ajdmom.mdl_{m}.mom"), M(f"ajdmom.mdl_{m}.cmom")
        for w in DER[m]:
            L.form(f"{m}.mom.dpoly({order},{w})", lambda: mom.dpoly(mom.moment_y(order), w), k + "_mom")
            if w != "mu":
                L.form(f"{m}.cmom.dpoly({order},{w})", lambda: cmom.dpoly(cmom.cmoment_y(order), w), k + "_cmom")
    for n, j in product(range(-3, 4), range(0, 4)):
        L.form(f"ito_mom.int_et({n},{j})", lambda: ito_mom.int_et(n, j), "free")
        L.form(f"itos_mom.int_et({n},{j - 1},{j})", lambda: itos_mom.int_et(n, j - 1, j), "free")
        for N in range(0, 3):
            L.form(f"ito_cond_mom.int_et_fZ({n},{j},{N})", lambda: ito_cond_mom.int_et_fZ(n, j, N), "free")
    # sums, products and powers of formulas of the library
    a, b = M("ajdmom.mdl_1fsv.mom").moment_y(2), M("ajdmom.mdl_1fsv.mom").moment_y(3)
    for name, f in (("a+b", lambda: a + b), ("a-b", lambda: a - b), ("a-a", lambda: a - a),
                    ("a*b", lambda: a * b), ("3*a", lambda: 3 * a), ("0*a", lambda: 0 * a),
                    ("(1/3)*a", lambda: Fraction(1, 3) * a), ("a**3", lambda: a ** 3)):
        L.form(f"poly {name}", f, "fsv_mom", name != "0*a")
    # products of powers of rates, multiplied up factor by factor
    for i in range(60 if hasattr(itos_mom, "t_mul_t0") else 0):
        rates = [x for x in product(range(-2, 4), repeat=2) if x != (0, 0)]
        pool = r.rng.sample(rates, 3 + i % 9)
        fs = [(0, 0, 0) if r.rng.random() < .1 else r.rng.choice(pool) + (r.rng.randint(1, 5),)
              for _ in range(4 + i % 13)]
        try:
            t0 = ((0, 0, 0),)
            for t in fs:
                t0 = itos_mom.t_mul_t0(t, t0)
            L.ev.append(dict(op="product", id=f"t_mul_t0 {fs}", f=fs, got=[list(t) for t in t0]))
        except Exception as ex:
            L.ev.append(dict(op="broken", id=f"t_mul_t0 {fs}", seen=f"{type(ex).__name__}: {ex}"[:200]))
    J = M("ajdmom.mdl_svvj.cond2_cmom").cmoment_y(3)
    L.form("svvj c*c", lambda: J - J, "svvj_c", True)
    L.judge("derived")


def together(r, L, a, b, na, nb):
    """every operation of two polynomials: refused unless both are in the same variables"""
    from ajdmom.poly import Poly
    ka, kb = list(a.keyfor), list(b.keyfor)
    before = dict(a), dict(b), ka, kb
    for nm, g in (("+", lambda: a + b), ("-", lambda: a - b), ("*", lambda: a * b)):
        L.ask(f"{na} {nm} {nb}", g, "ring", ka=ka, kb=kb)
    c = Poly(a)
    c.set_keyfor(a.keyfor)
    L.ask(f"{na} merge {nb}", lambda: c.merge(b), "ring", ka=ka, kb=kb)
    if ka != kb and dict(c) != before[0]:
        r.fail(f"{na} merge {nb}", "a refused merge changes nothing", "changed")
    if (dict(a), dict(b), list(a.keyfor), list(b.keyfor)) != before:
        r.fail(f"{na} with {nb}", "operands unchanged", "changed")
    try:
        ans = a.is_exact_type(b)
    except Exception as ex:
        ans = type(ex).__name__
    L.ev.append(dict(op="types", id=f"{na} is_exact_type {nb}", ka=ka, kb=kb,
                     got="yes" if ans is True else "no" if ans is False else str(ans)))


def foreign(r, n):
    """polynomials whose names differ as little as possible"""
    from ajdmom.poly import Poly
    L, rng = Log(r), r.rng
    M = importlib.import_module
    lists = [tuple(g.keyfor) for g in (
        M("ajdmom.mdl_1fsv.mom").moment_y(1), M("ajdmom.mdl_1fsv.cmom").cmoment_y(2), M("ajdmom.mdl_1fsvj.mom").moment_y(1),
        M("ajdmom.cpp_mom").mnorm(2), M("ajdmom.cpp_mom").mcpp(2), M("ajdmom.ito_mom").moment_IEII(0, 0, 2),
        M("ajdmom.mdl_srjd.mom").moment_v(1), M("ajdmom.mdl_srjd.cmom").cmoment_v(2),
        M("ajdmom.mdl_svcj.mom").moment_y(1), M("ajdmom.mdl_svcj.cond_mom").moment_y(1))]
    lists += [("x",), ("x", "y"), ("a", "b", "c")]

    def poly(kf):
        p = Poly({tuple(rng.randint(-2, 3) for _ in kf): Fraction(rng.randint(1, 9), rng.randint(1, 4))
                  for _ in range(rng.choice([0, 1, 1, 3]))})
        p.set_keyfor(kf)
        return p
    for t in range(n):
        kf = rng.choice(lists) if t >= len(lists) else lists[t]
        i = rng.randrange(len(kf))
        x = kf[i]
        near = [kf, tuple(list(kf)), kf[:-1], kf[1:], kf + ("z",), ("z",) + kf, kf + kf[-1:], kf[:i] + kf[i + 1:],
                kf[:i] + (x.upper() if x.upper() != x else x + "2",) + kf[i + 1:], kf[:i] + (x + " ",) + kf[i + 1:],
                kf[:-1] + ("z",), ("z",) + kf[1:], kf[::-1], (), (",".join(kf),), tuple(sorted(kf)),
                kf[:1] + kf[1:2] * (len(kf) - 1)]
        if len(kf) > 1:
            j = (i + rng.randint(1, len(kf) - 1)) % len(kf)
            w = list(kf)
            w[i], w[j] = w[j], w[i]
            near.append(tuple(w))
        for k, other in enumerate(near):
            if kf == other:
                other = list(other)     # equal names, given separately
            a, b = poly(kf), poly(other)
            together(r, L, a, b, f"#{t} {kf}", f"{k}: {tuple(other)}")
            together(r, L, b, a, f"{k}: {tuple(other)}", f"#{t} {kf}")
    L.judge("foreign")


def refusals(r, reach):
    L = Log(r)
    M = importlib.import_module

    def f(mod, fn):
        return lambda *a: getattr(M("ajdmom." + mod), fn)(*a)
    B = lambda k: list(product(range(-reach, reach + 1), repeat=k))
    for a in product(range(-reach, reach + 1), repeat=3):
        for mod in ("ito_mom", "ito_cond_mom"):
            L.ask(f"{mod}.moment_IEII{a}", lambda: f(mod, "moment_IEII")(*a), "orders", a)
        L.ask(f"svcj.moment_ieziziz{a}", lambda: f("mdl_svcj.ieziziz_mom", "moment_ieziziz")(*a), "orders", a)
    for a in [(0,) * i + (x,) + (0,) * (4 - i) for i in range(5) for x in (-2, -1, 1, 2)] + [
            r.rng.choices((-1, 0, 0, 1, 2), k=5) for _ in range(20)]:
        L.ask(f"itos_mom.moment_IEI_IEII{tuple(a)}", lambda: f("itos_mom", "moment_IEI_IEII")(*a), "orders", a)
    for a in [(0,) * i + (x,) + (0,) * (5 - i) for i in range(6) for x in (-2, -1, 1)] + [
            r.rng.choices((-1, 0, 0, 0, 1), k=6) for _ in range(20)]:
        L.ask(f"svcj.moment_ieii_ieziziz{tuple(a)}",
              lambda: f("mdl_svcj.cond_ieii_ieziziz_mom", "moment_ieii_ieziziz")(*a), "orders", a)
    for n in range(-4, 4):
        for mod, fns in (("cpp_mom", ("mnorm", "mcpp", "cmcpp", "mcpp_original")),
                         ("mdl_srjd.iez_mom", ("moment_IEZ",)), ("mdl_srjd.iez_cmom", ("cmoment_IEZ",)),
                         ("mdl_srjd.mom", ("moment_v",)), ("mdl_srjd.cmom", ("cmoment_v",)),
                         ("mdl_svcj.cond_mom", ("moment_y",)), ("mdl_svcj.cond_cmom", ("cmoment_y",)),
                         ("mdl_svcj.mom", ("moment_y",)), ("mdl_svcj.cmom", ("cmoment_y",))):
            for fn in fns:
                L.ask(f"{mod}.{fn}({n})", lambda: f(mod, fn)(n), "orders", (n,))
        L.ask(f"ito_mom.moment_v({n})", lambda: f("ito_mom", "moment_v")(n), "stationary", (n,))
    # building blocks of the joint moments (skipped where they no longer exist)
    for mod, fn, k in (("mdl_srjd.iez_mom", "moment_EJ", 1), ("mdl_srjd.cond_ie_iez_mom", "moment_ie", 1),
                       ("mdl_srjd.cond_ie_iez_cmom", "moment_ie", 1), ("mdl_svcj.ieziziz_mom", "moment_ejjj", 3)):
        for a in product(range(-reach, reach + 1), repeat=k):
            if hasattr(M("ajdmom." + mod), fn):
                L.ask(f"{mod}.{fn}{a}", lambda: f(mod, fn)(*a), "orders", a)
    for a in product(range(-reach, reach + 1), repeat=2):
        for mod, fn in (("mdl_srjd.cond_ie_iez_mom", "moment_ie_iez"), ("mdl_srjd.cond_ie_iez_cmom", "cmoment_ie_iez")):
            L.ask(f"{mod}.{fn}{a}", lambda: f(mod, fn)(*a), "orders", a)
        L.ask(f"ito_mom.int_et{a}", lambda: f("ito_mom", "int_et")(*a), "power", a)
        for N in (0, 1, 2):
            L.ask(f"ito_cond_mom.int_et_fZ{a + (N,)}", lambda: f("ito_cond_mom", "int_et_fZ")(*a, N), "power", a)
        for n2 in (-1, 0, 2):
            L.ask(f"itos_mom.int_et{(n2,) + a}", lambda: f("itos_mom", "int_et")(n2, *a), "power", (n2,) + a)
    # derivatives
    names = ["k", "k1", "k2", "mu", "theta", "theta1", "theta2", "sigma", "sigma_v", "sigma_v1", "sigma_v2", "rho",
             "lambda", "mu_j", "sigma_j", "h", "", "K", "x", "sqrt(1-rho^2)", "k^{-}", "e^{-kh}", "v0", "lmbd"]
    par = dict(k=1.1, k1=1.1, k2=0.6, mu=0.2, theta=0.5, theta1=0.5, theta2=0.3, sigma_v=0.4, sigma_v1=0.4,
               sigma_v2=0.2, rho=0.6, h=1, **{"lambda": 0.3, "mu_j": 0.1, "sigma_j": 0.2})
    for m in ("1fsv", "1fsvj", "2fsv", "2fsvj"):
        mom, cmom, cov = (M(f"ajdmom.mdl_{m}.{x}") for x in ("mom", "cmom", "cov"))
        D = getattr(cov, "dpoly", mom.dpoly)
        pm, pc, pv = mom.moment_y(2), cmom.cmoment_y(2), cov.cov_yy(1, 1)
        all_names = set(names)
        for w in names:
            own = set(pm.keyfor) | {"k", "k1", "k2"}
            ownc = set(pc.keyfor) | {"k", "k1", "k2"}
            for nm, g, o in ((f"{m}.mom.dpoly(.,{w!r})", lambda: mom.dpoly(pm, w), own),
                             (f"{m}.cmom.dpoly(.,{w!r})", lambda: cmom.dpoly(pc, w), ownc),
                             (f"{m}.cov.dpoly(.,{w!r})", lambda: D(pv, w), own),
                             (f"{m}.dm(2,.,{w!r})", lambda: mom.dm(2, par, w), own),
                             (f"{m}.dcm(2,.,{w!r})", lambda: cmom.dcm(2, par, w), ownc),
                             (f"{m}.dcov(1,1,.,{w!r})", lambda: cov.dcov(1, 1, par, w), own)):
                L.ask(nm, g, "wrt", model=m, wrt=w, own=sorted(o & all_names))
    # polynomials
    from ajdmom.poly import Poly
    forms = [M("ajdmom.mdl_1fsv.mom").moment_y(1), M("ajdmom.mdl_1fsv.cmom").cmoment_y(2),
             M("ajdmom.mdl_2fsv.mom").moment_y(1), M("ajdmom.cpp_mom").mnorm(2), M("ajdmom.cpp_mom").mcpp(2),
             M("ajdmom.ito_mom").moment_IEII(0, 0, 2), M("ajdmom.mdl_svvj.cond2_mom").moment_y(1)]
    e = Poly()
    e.set_keyfor(forms[0].keyfor)
    forms.append(e)
    for i, a in enumerate(forms):
        for j, b in enumerate(forms):
            together(r, L, a, b, f"formula{i}", f"formula{j}")
        for n in range(-3, 4):
            L.ask(f"formula{i} ** {n}", lambda: a ** n, "raise", (n,))
    # removing sqrt(1-rho^2)
    from ajdmom.utils import simplify_rho
    for n in range(0, 10):
        p = Poly({(1, 2, n): Fraction(1, 3), (0, 0, 2): 1})
        p.set_keyfor(("theta", "rho", "sqrt(1-rho^2)"))
        L.ask(f"simplify_rho(sqrt^{n})", lambda: simplify_rho(p, 2), "even", (n,))
    c = M("ajdmom.mdl_1fsv.cond_cmom")
    p = c.cmoments_y_to(3)[2]
    for tp in (-1, 0, 1, 2, 3, 4, 7):
        L.ask(f"1fsv.cond_cmom.simplify(., {tp})", lambda: c.simplify(p, tp), "mode", (tp,))
    L.judge("refusals")
