"""Units on the simulators, run on controlled random numbers (EulerSim)."""
import importlib
import time
from fractions import Fraction

import vlib
from scalars import RHO, real


class Unsupported(Exception):
    """a kind of draw this harness has no stand-in for"""


class Tape:
    """stands in for numpy's generators: hands out prescribed standard draws"""

    def __init__(self):
        self.load([0.0], [0], [0.0], True)

    def load(self, z, p, z2, const):
        self.z, self.p, self.z2, self.const = z, p, z2, const
        self.nz = self.np_ = 0
        self.rates = []

    def _next(self, what):
        import numpy  # noqa: F401
        if what == "z":
            i, self.nz = self.nz, self.nz + 1
            return i if not self.const else 0
        i, self.np_ = self.np_, self.np_ + 1
        return i if not self.const else 0

    def _fill(self, size, one, *args):
        import numpy as np
        arrs = [np.asarray(a, dtype=float) for a in args]
        if size is None:
            shape = np.broadcast(*arrs).shape if arrs else ()
        else:
            shape = (size,) if isinstance(size, int) or hasattr(size, "dtype") else tuple(size)
        if shape == ():
            return one(*[float(a) for a in arrs])
        bs = [np.broadcast_to(a, shape) for a in arrs]
        out = np.empty(shape)
        for ix in np.ndindex(*shape):
            out[ix] = one(*[float(b[ix]) for b in bs])
        return out

    def _z(self):
        i = self._next("z")
        if i >= len(self.z):
            raise Unsupported(f"more than {len(self.z)} draws")
        return i

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda a, b: a + b * self.z[self._z()], loc, scale)

    def standard_normal(self, size=None, *a, **k):
        return self._fill(size, lambda: self.z[self._z()])

    def randn(self, *shape):
        return self._fill(shape or None, lambda: self.z[self._z()])

    def poisson(self, lam=1.0, size=None):
        def one(x):
            self.rates.append(x)
            i = self._next("p")
            if i >= len(self.p):
                raise Unsupported("more counts than prepared")
            return self.p[i]
        r = self._fill(size, one, lam)
        return int(r) if isinstance(r, float) else r if isinstance(r, int) else r.astype(int)

    def noncentral_chisquare(self, df, nonc, size=None):
        def one(a, b):
            i = self._z()
            return self.z[i] * a + self.z2[i] * b
        return self._fill(size, one, df, nonc)

    def seed(self, *a, **k):
        return None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def no(*a, **k):
            raise Unsupported(name)
        return no


def install():
    import numpy as np
    tape = Tape()
    for name in dir(np.random):
        f = getattr(np.random, name)
        if name.startswith("_") or not callable(f) or isinstance(f, type):
            continue
        if name != "default_rng":
            setattr(np.random, name, getattr(tape, name))
    np.random.default_rng = lambda *a, **k: tape
    return tape


def dec(rng, lo, hi, d=3):
    return round(rng.uniform(lo, hi), d)


FAMS = {"1fsv": "sv1", "1fsv_iid": "sv1", "1fsvj": "sv1", "2fsv": "sv2", "2fsvj": "sv2", "srjd": "srd",
        "svvj": "path", "svij": "path", "svcj": "path"}
PRICE = {"1fsvj": "poisson", "2fsvj": "poisson", "svij": "poisson", "svcj": "same"}


def run(r, model, tape, i, const, deep=False):
    """one run of a simulator; returns the case for the specification"""
    rng = r.rng
    M = lambda m: importlib.import_module(f"ajdmom.mdl_{m}.euler")
    fam = FAMS[model]
    rho, srho = rng.choice(RHO)
    mu, k, th, sg = dec(rng, -1, 1), dec(rng, .1, 2), dec(rng, .05, 1), dec(rng, .1, 1)
    k2, th2, sg2 = dec(rng, .1, 2), dec(rng, .05, 1), dec(rng, .1, 1)
    lam, mus, sgs, rhoJ = dec(rng, 0, 2), dec(rng, -.5, .5), dec(rng, 0, 1), dec(rng, -1, 1)
    v0, w0 = dec(rng, .01, 1), dec(rng, .01, 1)
    h = rng.choice([1, 0.5, 2, dec(rng, .1, 2)])
    if const:
        n, nseg, nj = rng.randint(0, 4), rng.randint(1, 5), rng.randint(0, 4)
        z, z2, p = [rng.choice([0.0, dec(rng, -3, 3), dec(rng, -1, 1), -2.5])], [dec(rng, .5, 1.5)], [rng.randint(0, 3)]
        if fam == "srd":
            z = [dec(rng, .2, 1.5)]
    else:
        # the number of draws is kept small, so that every order of drawing can be explored
        n, nseg, nj = {"sv1": [(1, 2, 0), (2, 1, 0), (1, 1, 0)], "sv2": [(1, 1, 0), (2, 1, 0), (1, 2, 0)],
                       "srd": [(1, 2, 2), (2, 1, 1), (1, 1, 3), (3, 1, 0), (2, 1, 2)],
                       "path": [(1, 2, 0), (1, 1, 1), (2, 1, 0), (1, 2, 1), (1, 1, 2)]
                        if model == "svvj" else [(1, 2, 0), (1, 1, 1), (2, 1, 0), (1, 1, 1), (1, 1, 2) if deep else (1, 1, 1)]}[fam][i % 5 if fam in ("path", "srd") else i % 3]
        z = [dec(rng, -2, 2, 4) for _ in range(16)]
        z2 = [dec(rng, .5, 1.5, 4) for _ in range(16)]
        if fam == "srd":
            z = [dec(rng, .2, 1.5, 4) for _ in range(16)]
        p = [rng.choice([0, 1, 1, 2]) for _ in range(4)]
        if fam == "path" and nseg + nj >= 3:
            p = [rng.choice([0, 1]) for _ in range(4)]
        if fam == "sv2" and n * nseg == 2:
            p = [0, 1, 0, 0] if i % 2 else [1, 0, 0, 0]
    if fam in ("path", "srd") and (i // 3) % 3 == 0 and nj:
        # jumps on the grid, at the end of the interval, all times exact in binary
        h = rng.choice([1, 2])
        nseg = rng.choice([1, 2, 4]) if const else nseg
        grid = [Fraction(a, 8) * h for a in range(1, 9)]
        S = sorted(float(x) for x in rng.sample(grid, nj))
        if rng.random() < .4:
            S[-1] = float(h)
        S = sorted(set(S))
    else:
        while True:
            S = sorted({dec(rng, .02, .98, 4) * h for _ in range(nj)})
            S = [round(x, 6) for x in S]
            if all(abs(x - h * a / nseg) > 1e-5 for x in S for a in range(nseg + 1)):
                break
    J = [dec(rng, .05, 1) for _ in S]
    if not const:
        # a path longer than planned would need too many draws
        S, J = S[:nj], J[:nj]
    tape.load(z, p, z2, const)
    seq = (tuple, list)[i % 2] if fam == "srd" else tuple
    Js, Ss = seq(J), seq(S)
    par = {"k": k, "mu": mu, "theta": th, "sigma_v": sg, "rho": float(rho), "lambda": lam, "mu_j": mus, "sigma_j": sgs}
    par2 = {"mu": mu, "k1": k, "k2": k2, "theta1": th, "theta2": th2, "sigma_v1": sg, "sigma_v2": sg2, "lambda": lam,
            "mu_j": mus, "sigma_j": sgs}
    kept = dict(par), dict(par2), seq(J), seq(S)
    rf = float(rho)
    kw = {} if nseg != 10 else {}
    call = {
        "1fsv": lambda: M("1fsv").r1FSV(v0, par, n, nseg, h),
        "1fsv_iid": lambda: M("1fsv").r1FSV_iid(v0, par, n, nseg, h),
        "1fsvj": lambda: M("1fsvj").r1FSVJ(v0, par, n, n_segment=nseg, h=h),
        "2fsv": lambda: M("2fsv").r2FSV((v0, w0), par2, n, nseg, h),
        "2fsvj": lambda: M("2fsvj").r2FSVJ([v0, w0], par2, n, nseg, h),
        "srjd": lambda: M("srjd").rSRJD(v0, k, th, sg, h, Js, Ss, n),
        "svvj": lambda: M("svvj").rSVVJ(v0, mu, k, th, sg, rf, h, Js, Ss, n, nseg),
        "svij": lambda: M("svij").rSVIJ(v0, mu, k, th, sg, rf, h, Js, Ss, lam, mus, sgs, n, nseg),
        "svcj": lambda: M("svcj").rSVCJ(v0, mu, k, th, sg, rf, h, Js, Ss, mus, sgs, rhoJ, n, nseg)}[model]
    ident = (f"{model} run {i}{' constant' if const else ''}: n={n} segments={nseg} h={h} v0={v0},{w0} k={k} theta={th} "
             f"sigma={sg} rho={rho} mu={mu} jumps {list(zip(S, J))}")
    y = [real(float(x)) for x in call()]
    if (dict(par), dict(par2), Js, Ss) != kept:
        r.fail(ident, "arguments unchanged", "changed")
    used = 1 if const else max(tape.nz, 1)
    pr = dict(k1=real(Fraction(str(k))), th1=real(Fraction(str(th))), s1=real(Fraction(str(sg))),
              k2=real(Fraction(str(k2))), th2=real(Fraction(str(th2))), s2=real(Fraction(str(sg2))),
              mu=real(Fraction(str(mu))), rho=real(rho), srho=real(srho), lam=real(Fraction(str(lam))),
              mus=real(Fraction(str(mus))), sgs=real(Fraction(str(sgs))), rhoJ=real(Fraction(str(rhoJ))),
              h=real(Fraction(str(h))))
    d = lambda x: real(Fraction(str(x)))
    return dict(id=ident, fam=fam, const=const, n=n, nseg=nseg, v0=d(v0), w0=d(w0), par=pr,
                iid=fam in ("srd", "path") or model == "1fsv_iid", jumps=PRICE.get(model, "none"),
                z=[d(x) for x in z[:used]], z2=[d(x) for x in z2[:used]],
                p=p[:1 if const else max(tape.np_, 1)], rates=[real(x) for x in tape.rates],
                path=[dict(S=d(a), J=d(b)) for a, b in zip(S, J)], y=y)


def sims(r, models, consts, tapes):
    t0 = time.time()
    tape = install()
    ev = []
    for model in models:
        for i in range(consts + tapes):
            vlib.phase(f"lib {model} {i}")
            try:
                ev.append(run(r, model, tape, i, i < consts, r.tier == "thorough"))
            except Unsupported as ex:
                r.skipped.append(f"{model}: draws {ex}")
            except Exception as ex:
                r.fail(f"{model} run {i}", "values", f"{type(ex).__name__}: {ex}")
    r.lib_s += time.time() - t0
    for e in ev[:: max(1, len(ev) // 3)]:
        r.sample(dict(run=e["id"]))
    if ev:
        r.judge("EulerSim", "EulerSim.cfg", ev, "sims", {}, traces=len(ev))
