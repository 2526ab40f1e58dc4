"""How each part of the library is driven as a behaviour of AJDMachine.

Every function builds one Session at one random point of GF(P).  `lib` caches
the library's (symbolic) results, so several points share one computation.
"""
from fractions import Fraction
from vlib import Ctx, Session, inv, P, fp


class Lib:
    """calls into the library, each made once; failures are answers too"""

    def __init__(self):
        self.memo = {}

    def __call__(self, key, f):
        if key not in self.memo:
            try:
                self.memo[key] = (True, f())
            except Exception as e:
                self.memo[key] = (False, e)
        ok, r = self.memo[key]
        if not ok:
            raise r
        return r


def one(*a):
    return dict(q="raw", al=list(a))


def price(l):
    return one(0, 0, l, 0)


def central(l, c=3, dim=4):
    return dict(q="central", al=[0] * dim, c=c, n=l)


def affine(n, a, b, c=3, dim=4, al=None):
    return dict(q="affine", al=al or [0] * dim, c=c, n=n, a=a % P, b=b % P)


STAT = dict(kind="stat")


# ------------------------------------------------------------ 1FSV / 1FSVJ
def sym_1f(p, pt):
    return {'e^{-kh}': inv(pt['e1']), 'h': pt['t'], 'k^{-}': inv(p.k1), 'mu': p.mu,
            'theta': p.th1, 'sigma_v': p.s1, 'rho': p.rho, 'sqrt(1-rho^2)': p.srho,
            'lambda': p.lam, 'mu_j': p.mus, 'sigma_j': p.sgs}


def sym_2f(p, pt):
    E1, E2 = inv(pt['e1']), inv(pt['e2'])
    from vlib import T0
    return {T0: p.t0, 'e^{-(n1*k1+n2*k2)h}': (E1, E2), 'h': pt['t'], 'mu': p.mu,
            'theta1': p.th1, 'sigma_v1': p.s1, 'theta2': p.th2, 'sigma_v2': p.s2,
            'lambda': p.lam, 'mu_j': p.mus, 'sigma_j': p.sgs}


def par_of(model, p):
    d = {}
    if model.startswith("2"):
        d["rho"] = 0
    if model.endswith("j"):
        d.update(lam=p.lam, muv=0, mus=p.mus, vs=p.sgs * p.sgs % P)
    return p.par(**d)


def mods(model):
    import importlib
    return {n: importlib.import_module(f"ajdmom.mdl_{model}.{n}") for n in ("mom", "cmom", "cov")}


def return_moments(p, lib, model, L, LC, covs):
    """moments, central moments of one return, covariances of two successive ones"""
    M = mods(model)
    nv = int(model[0])
    pt = p.time()
    c = Ctx((sym_1f if nv == 1 else sym_2f)(p, pt))
    N = max([L, LC] + [a + b for a, b in covs] + [1])
    s = Session(model)
    s.start("price", nv, par_of(model, p), STAT, N)
    s.place(pt)
    for l in range(0, L + 1):
        s.ask(f"moment_y({l})", price(l), lambda: lib(("m", l), lambda: M["mom"].moment_y(l)), c)
    for l in range(0, LC + 1):
        s.ask(f"cmoment_y({l})", central(l), lambda: lib(("c", l), lambda: M["cmom"].cmoment_y(l)), c)
    if covs:
        s.observe()
        s.place(pt)
        for a, b in covs:
            s.ask(f"moment_yy({a},{b})", one(0, 0, b, a),
                  lambda: lib(("yy", a, b), lambda: M["cov"].moment_yy(a, b)), c)
            s.ask(f"cov_yy({a},{b})", dict(q="cov", n=b, m=a),
                  lambda: lib(("cov", a, b), lambda: M["cov"].cov_yy(a, b)), c)
    return s


def cov_orders(n):
    return [(a, b) for a in range(n + 1) for b in range(n + 1) if a + b <= n]


# ------------------------------------------------------------ CIR moments
def cir_stationary(p, lib, L):
    from ajdmom import ito_mom
    s = Session("cir")
    s.start("price", 1, p.par(), STAT, max(1, L))
    s.place(p.time())
    c = Ctx({'theta': p.th1, 'sigma_v^2/k': p.s1 * p.s1 * inv(p.k1) % P})
    for n in range(0, L + 1):
        s.ask(f"moment_v({n})", one(n, 0, 0, 0), lambda: lib(n, lambda: ito_mom.moment_v(n)), c)
    return s


# ------------------------------------------------------------ Ito integrals
def ito_one_factor(p, lib, orders):
    from ajdmom import ito_mom
    N = max([sum(o) for o in orders] + [1])
    clk, pt = p.time(), p.time()
    s = Session("ito1")
    s.start("ito1", 1, p.par(), dict(kind="det", v1=p.v1, v2=0), N, clk)
    s.place(pt)
    c = Ctx({'e^{k(n-1)h}': clk['e1'], 'e^{k[t-(n-1)h]}': pt['e1'], '[t-(n-1)h]': pt['t'],
             'v_{n-1}': p.v1, 'k^{-}': inv(p.k1), 'theta': p.th1, 'sigma_v': p.s1})
    for o in orders:
        s.ask(f"moment_IEII{o}", one(0, *o, 0, 0, 0),
              lambda: lib(o, lambda: ito_mom.moment_IEII(*o)), c)
    return s


def ito_two_factor(p, lib, orders):
    from ajdmom import itos_mom
    from vlib import T0
    N = max([sum(o) for o in orders] + [1])
    clk, pt = p.time(), p.time()
    s = Session("ito2")
    s.start("ito2", 2, p.par(rho=0), dict(kind="det", v1=p.v1, v2=p.v2), N, clk)
    s.place(pt)
    c = Ctx({T0: p.t0, 'e^{(m_4*k1+m_6*k2)(n-1)h}': (clk['e1'], clk['e2']),
             'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}': (pt['e1'], pt['e2']), '[t-(n-1)h]': pt['t'],
             'v_{1,n-1}': p.v1, 'theta1': p.th1, 'sigma_v1': p.s1,
             'v_{2,n-1}': p.v2, 'theta2': p.th2, 'sigma_v2': p.s2})
    for o in orders:
        s.ask(f"moment_IEI_IEII{o}", one(0, 0, *o),
              lambda: lib(o, lambda: itos_mom.moment_IEI_IEII(*o)), c)
    return s


def segments(s, p, jumps):
    """jumps J at random times; returns (path, exp(k t), t) and the last point"""
    e, t, path = 1, 0, []
    for J in jumps:
        pt = p.time()
        s.place(pt)
        s.commit()
        e, t = e * pt['e1'] % P, (t + pt['t']) % P
        s.jump(J)
        path.append((e, t, J))
    pt = p.time()
    s.place(pt)
    return path, e * pt['e1'] % P, (t + pt['t']) % P


def ito_path(p, lib, orders, njump):
    """(IE, I, I* ) given the jump times and sizes of the variance"""
    from ajdmom import ito_cond_mom
    N = max([sum(o) for o in orders] + [1])
    s = Session(f"itopath{njump}")
    s.start("ito1", 1, p.par(), dict(kind="det", v1=p.v1, v2=0), N)
    path, E, t = segments(s, p, [p.R() for _ in range(njump)])
    c = Ctx({'e^{kt}': E, 't': t, 'k^{-}': inv(p.k1), 'v0-theta': (p.v1 - p.th1) % P,
             'theta': p.th1, 'sigma': p.s1}, path)
    for o in orders:
        s.ask(f"moment_IEII{o}", one(0, *o, 0, 0, 0),
              lambda: lib(o, lambda: ito_cond_mom.moment_IEII(*o)), c)
    return s


# ------------------------------------------------------------ SRJD
def srjd_jumps(p, lib, L, more=(), cmore=()):
    """moments of the exponentially weighted jump integral over (s, t]"""
    from ajdmom.mdl_srjd import iez_mom, iez_cmom
    clk, pt = p.time(), p.time()
    s = Session("iez")
    s.start("ito1", 1, p.par(lam=p.lam, muv=p.muv), dict(kind="det", v1=p.v1, v2=0), max([L, *more, *cmore]), clk)
    s.place(pt)
    c = Ctx({'e^{ks}': clk['e1'], 'e^{kt}': clk['e1'] * pt['e1'] % P, 'k^{-}': inv(p.k1),
             'lmbd': p.lam, 'mu_v': p.muv})
    for n in list(range(0, L + 1)) + list(more):
        s.ask(f"moment_IEZ({n})", one(0, 0, 0, 0, n, 0, 0),
              lambda: lib(("m", n), lambda: iez_mom.moment_IEZ(n)), c)
    for n in list(range(0, L + 1)) + list(cmore):
        s.ask(f"cmoment_IEZ({n})", central(n, c=5, dim=7),
              lambda: lib(("c", n), lambda: iez_cmom.cmoment_IEZ(n)), c)
    return s


def srjd_sym(p, E):
    return {'e^{kt}': E, 'k^{-}': inv(p.k1), 'v0-theta': (p.v1 - p.th1) % P,
            'theta': p.th1, 'sigma': p.s1, 'lmbd': p.lam, 'mu_v': p.muv,
            'E[v]': (p.th1 + p.lam * p.muv * inv(p.k1)) % P,
            'v0-E[v]': (p.v1 - p.th1 - p.lam * p.muv * inv(p.k1)) % P}


def srjd_joint(p, lib, orders, L):
    from ajdmom.mdl_srjd import cond_ie_iez_mom as A, cond_ie_iez_cmom as B
    N = max([sum(o) for o in orders] + [L, 1])
    pt = p.time()
    s = Session("srjd-joint")
    s.start("ito1", 1, p.par(lam=p.lam, muv=p.muv), dict(kind="det", v1=p.v1, v2=0), N)
    s.place(pt)
    c = Ctx(srjd_sym(p, pt['e1']))
    for n in range(0, L + 1):
        s.ask(f"moment_ie({n})", one(0, n, 0, 0, 0, 0, 0),
              lambda: lib(("ie", n), lambda: A.moment_ie(n)), c)
        s.ask(f"c.moment_ie({n})", one(0, n, 0, 0, 0, 0, 0),
              lambda: lib(("cie", n), lambda: B.moment_ie(n)), c)
    for a, b in orders:
        s.ask(f"moment_ie_iez({a},{b})", one(0, a, 0, 0, b, 0, 0),
              lambda: lib(("m", a, b), lambda: A.moment_ie_iez(a, b)), c)
        s.ask(f"cmoment_ie_iez({a},{b})",
              dict(q="central", al=[0, a, 0, 0, 0, 0, 0], c=5, n=b),
              lambda: lib(("c", a, b), lambda: B.cmoment_ie_iez(a, b)), c)
    return s


def srjd_cond(p, lib, L):
    from ajdmom.mdl_srjd import cond_mom, cond_cmom, cmom
    pt = p.time()
    s = Session("srjd")
    s.start("price", 1, p.par(lam=p.lam, muv=p.muv, rho=0), dict(kind="det", v1=p.v1, v2=0), L)
    s.place(pt)
    c = Ctx(srjd_sym(p, pt['e1']))
    E = pt['e1']
    Ev = (p.th1 + p.lam * p.muv * inv(p.k1)) % P
    for n in range(0, L + 1):
        # x = e^{kt}(v - theta) - (v0 - theta)
        s.ask(f"moment_x({n})", affine(n, E, -E * p.th1 - (p.v1 - p.th1), c=1),
              lambda: lib(("x", n), lambda: cond_mom.moment_x(n)), c)
        s.ask(f"moment_v({n})", one(n, 0, 0, 0), lambda: lib(("v", n), lambda: cond_mom.moment_v(n)), c)
        s.ask(f"cmoment_v({n})", central(n, c=1),
              lambda: lib(("cv", n), lambda: cond_cmom.cmoment_v(n)), c)
        s.ask(f"cmoment_x({n})",
              dict(q="ccentral", al=[0, 0, 0, 0], c=1, n=n, a=E),
              lambda: lib(("cx", n), lambda: cond_cmom.cmoment_x(n)), c)
        s.ask(f"cond_cmoment_v({n})", affine(n, 1, -Ev, c=1),
              lambda: lib(("ccv", n), lambda: cmom.cond_cmoment_v(n)), c)
    return s


def srjd_stationary(p, lib, L):
    from ajdmom.mdl_srjd import mom, cmom
    s = Session("srjd-stat")
    s.start("price", 1, p.par(lam=p.lam, muv=p.muv, rho=0), STAT, max(1, L))
    s.place(p.time())
    c = Ctx(srjd_sym(p, 1))
    for n in range(0, L + 1):
        s.ask(f"moment_v({n})", one(n, 0, 0, 0), lambda: lib(("m", n), lambda: mom.moment_v(n)), c)
        s.ask(f"moment_v({n},raw)", one(n, 0, 0, 0),
              lambda: lib(("mr", n), lambda: mom.moment_v(n, simplify=False)), c)
        s.ask(f"cmoment_v({n})", central(n, c=1), lambda: lib(("c", n), lambda: cmom.cmoment_v(n)), c)
    return s


def srjd_path(p, lib, L, njump):
    from ajdmom.mdl_srjd import cond2_mom, cond2_cmom
    s = Session(f"srjd-path{njump}")
    s.start("price", 1, p.par(rho=0), dict(kind="det", v1=p.v1, v2=0), L)
    path, E, t = segments(s, p, [p.R() for _ in range(njump)])
    c = Ctx({'v_0': p.v1, 'k^{-}': inv(p.k1), 'theta': p.th1, 'sigma': p.s1, 'e^{kt}': E}, path)
    for n in range(0, L + 1):
        s.ask(f"moment_v({n})", one(n, 0, 0, 0), lambda: lib(("m", n), lambda: cond2_mom.moment_v(n)), c)
        s.ask(f"cmoment_v({n})", central(n, c=1), lambda: lib(("c", n), lambda: cond2_cmom.cmoment_v(n)), c)
    return s


def srjd_path_ie(p, lib, L, njump):
    from ajdmom.mdl_srjd import cond2_mom
    s = Session(f"srjd-pathie{njump}")
    s.start("ito1", 1, p.par(rho=0), dict(kind="det", v1=p.v1, v2=0), L)
    path, E, t = segments(s, p, [p.R() for _ in range(njump)])
    c = Ctx({'v_0': p.v1, 'k^{-}': inv(p.k1), 'theta': p.th1, 'sigma': p.s1, 'e^{kt}': E}, path)
    for n in range(0, L + 1):
        s.ask(f"moment_IE({n})", one(0, n, 0, 0, 0, 0, 0),
              lambda: lib(n, lambda: cond2_mom.moment_IE(n)), c)
    return s


# ------------------------------------------------------------ SVCJ
def svcj_jumps(p, lib, orders):
    from ajdmom.mdl_svcj import ieziziz_mom
    N = max([sum(o) for o in orders] + [1])
    clk, pt = p.time(), p.time()
    s = Session("svcj-jumps")
    s.start("ito1", 1, p.par(lam=p.lam, muv=p.muv, mus=p.mus, vs=p.sgs * p.sgs % P),
            dict(kind="det", v1=p.v1, v2=0), N, clk)
    s.place(pt)
    c = Ctx({'e^{kt}': clk['e1'] * pt['e1'] % P, 'e^{ks}': clk['e1'], 't-s': pt['t'],
             'k^{-}': inv(p.k1), 'lmbd': p.lam, 'mu_v': p.muv, 'mu_s': p.mus, 'sigma_s': p.sgs})
    for o in orders:
        s.ask(f"moment_ieziziz{o}", one(0, 0, 0, 0, *o),
              lambda: lib(o, lambda: ieziziz_mom.moment_ieziziz(*o)), c)
    return s


def svcj_joint(p, lib, orders):
    from ajdmom.mdl_svcj import cond_ieii_ieziziz_mom as A
    N = max([sum(o) for o in orders] + [1])
    pt = p.time()
    s = Session("svcj-joint")
    s.start("ito1", 1, p.par(lam=p.lam, muv=p.muv, mus=p.mus, vs=p.sgs * p.sgs % P),
            dict(kind="det", v1=p.v1, v2=0), N)
    s.place(pt)
    c = Ctx({'e^{kt}': pt['e1'], 't': pt['t'], 'k^{-}': inv(p.k1), 'v0-theta': (p.v1 - p.th1) % P,
             'theta': p.th1, 'sigma': p.s1, 'lmbd': p.lam, 'mu_v': p.muv, 'mu_s': p.mus,
             'sigma_s': p.sgs})
    for o in orders:
        s.ask(f"moment_ieii_ieziziz{o}", one(0, *o),
              lambda: lib(o, lambda: A.moment_ieii_ieziziz(*o)), c)
    return s


def svcj_par(p):
    return p.par(lam=p.lam, muv=p.muv, mus=p.mus, vs=p.sgs * p.sgs % P, rhoJ=p.rhoJ)


def svcj_sym(p, pt):
    return {'e^{kt}': pt['e1'], 't': pt['t'], 'k^{-}': inv(p.k1), 'mu': p.mu,
            'v0-theta': (p.v1 - p.th1) % P, 'theta': p.th1, 'sigma': p.s1, 'rho': p.rho,
            'sqrt(1-rho^2)': p.srho,
            'E[v]': (p.th1 + p.lam * p.muv * inv(p.k1)) % P,
            'lmbd': p.lam, 'mu_v': p.muv, 'rhoJ': p.rhoJ, 'mu_s': p.mus, 'sigma_s': p.sgs}


def svcj_cond(p, lib, L, LC):
    from ajdmom.mdl_svcj import cond_mom, cond_cmom
    pt = p.time()
    s = Session("svcj-cond")
    s.start("price", 1, svcj_par(p), dict(kind="det", v1=p.v1, v2=0), max(L, LC))
    s.place(pt)
    c = Ctx(svcj_sym(p, pt))
    for n in range(0, L + 1):
        s.ask(f"moment_y({n})", price(n), lambda: lib(("m", n), lambda: cond_mom.moment_y(n)), c)
    for n in range(0, LC + 1):
        s.ask(f"cmoment_y({n})", central(n), lambda: lib(("c", n), lambda: cond_cmom.cmoment_y(n)), c)
    return s


def svcj_stationary(p, lib, L, LC):
    from ajdmom.mdl_svcj import mom, cmom
    pt = p.time()
    s = Session("svcj")
    s.start("price", 1, svcj_par(p), STAT, max(L, LC))
    s.place(pt)
    c = Ctx(svcj_sym(p, pt))
    for n in range(0, L + 1):
        s.ask(f"moment_y({n})", price(n), lambda: lib(("m", n), lambda: mom.moment_y(n)), c)
    for n in range(0, LC + 1):
        s.ask(f"cmoment_y({n})", central(n), lambda: lib(("c", n), lambda: cmom.cmoment_y(n)), c)
    Ev = (p.th1 + p.lam * p.muv * inv(p.k1)) % P
    for n in range(0, max(L, LC) + 1):
        s.ask(f"moment_v_theta({n})", affine(n, 1, -p.th1, c=1),
              lambda: lib(("vt", n), lambda: mom.moment_v_theta(n)), c)
    return s


# ------------------------------------------------------------ path-conditional returns
def path_sym(p, E, t, path):
    k = inv(p.k1)
    sj = {'e^{kt}': E, 't': t, 'k^{-}': k, 'v0-theta': (p.v1 - p.th1) % P, 'v_0-theta': (p.v1 - p.th1) % P,
          'theta': p.th1, 'sigma': p.s1,
          'beta_t': (1 - inv(E)) * inv(2 * p.k1) % P, 'mu-theta/2': (p.mu - p.th1 * inv(2)) % P,
          'sigma/2k': p.s1 * inv(2 * p.k1) % P,
          'rho-sigma/2k': (p.rho - p.s1 * inv(2 * p.k1)) % P, 'sqrt(1-rho^2)': p.srho,
          'mu_s': p.mus, 'rho_J': p.rhoJ, 'sigma_s': p.sgs}

    def jp(e):
        if len(e) != len(path):
            raise ValueError(f"J key {e} for {len(path)} jumps")
        v = 1
        for x, (_, _, J) in zip(e, path):
            v = v * pow(J, x, P) % P
        return v
    sj['J_{1:n}'] = jp
    return sj


def fsv_cond(p, lib, L):
    """1FSV given the initial variance"""
    from ajdmom.mdl_1fsv import cond_cmom
    pt = p.time()
    s = Session("1fsv-cond")
    s.start("price", 1, p.par(), dict(kind="det", v1=p.v1, v2=0), L)
    s.place(pt)
    c = Ctx(path_sym(p, pt['e1'], pt['t'], []))
    for n in range(0, L + 1):
        s.ask(f"cmoments_y_to({max(n, 1)})[{n}]", central(n),
              lambda: lib(n, lambda: cond_cmom.cmoments_y_to(max(n, 1)))[n], c)
    for n in range(0, L + 1):
        s.ask(f"cmoments_y_to({L})[{n}]", central(n),
              lambda: lib(L, lambda: cond_cmom.cmoments_y_to(L))[n], c)
    return s


def path_returns(p, lib, model, L, LC, njump):
    import importlib
    A = importlib.import_module(f"ajdmom.mdl_{model}.cond2_mom")
    B = importlib.import_module(f"ajdmom.mdl_{model}.cond2_cmom")
    s = Session(f"{model}-path{njump}")
    kw = {}
    if model == "svcj":
        kw = dict(mus=p.mus, vs=p.sgs * p.sgs % P, rhoJ=p.rhoJ)
    if model == "svij":
        kw = dict(lam2=p.lam2, mus2=p.mus, vs2=p.sgs * p.sgs % P)
    s.start("price", 1, p.par(**kw), dict(kind="det", v1=p.v1, v2=0), max(L, LC))
    path, E, t = segments(s, p, [p.R() for _ in range(njump)])
    sym = path_sym(p, E, t, path)
    if model == "svij":
        sym['lmbd_s'] = p.lam2
    c = Ctx(sym, path)
    J = ([1.0] * njump,) if model == "svcj" else ()
    for n in range(0, L + 1):
        s.ask(f"moments_y_to({L})[{n}]", price(n),
              lambda: lib(("M", njump if J else 0), lambda: A.moments_y_to(L, *J))[n], c)
        s.ask(f"moment_y({n})", price(n),
              lambda: lib(("m", n, njump if J else 0), lambda: A.moment_y(n, *J)), c)
    for n in range(0, LC + 1):
        s.ask(f"cmoments_y_to({LC})[{n}]", central(n),
              lambda: lib(("C", njump if J else 0), lambda: B.cmoments_y_to(LC, *J))[n], c)
        s.ask(f"cmoment_y({n})", central(n),
              lambda: lib(("c", n, njump if J else 0), lambda: B.cmoment_y(n, *J)), c)
    return s


# ------------------------------------------------------------ compound Poisson
def cpp(p, lib, L, more=None):
    """a compound Poisson sum with normal jumps over one period, rate*period = lambda*h"""
    from ajdmom import cpp_mom
    pt = p.time()
    s = Session("cpp")
    # 'lambda*h' is one symbol: rate lam over time t
    s.start("ito1", 1, p.par(lam=p.lam, mus=p.mus, vs=p.sgs * p.sgs % P),
            dict(kind="det", v1=0, v2=0), max([L] + list((more or {}).values())))
    s.place(pt)
    c = Ctx({'lambda*h': p.lam * pt['t'] % P, 'mu': p.mus, 'sigma': p.sgs,
             'sigma^2': p.sgs * p.sgs % P})
    for n in range(0, L + 1):
        for f in ("mcpp", "mcpp_original"):
            s.ask(f"{f}({n})", one(0, 0, 0, 0, 0, 0, n),
                  lambda: lib((f, n), lambda: getattr(cpp_mom, f)(n)), c)
        s.ask(f"cmcpp({n})", central(n, c=7, dim=7), lambda: lib(("cmcpp", n), lambda: cpp_mom.cmcpp(n)), c)
    for f, n in (more or {}).items():
        s.ask(f"{f}({n})", central(n, c=7, dim=7) if f == "cmcpp" else one(0, 0, 0, 0, 0, 0, n),
              lambda: lib((f, n), lambda: getattr(cpp_mom, f)(n)), c)
    return s


def norm(p, lib, L):
    """moments and central moments of a normal variable"""
    from ajdmom import cpp_mom, utils
    s = Session("norm")
    s.start("ito1", 1, p.par(), dict(kind="det", v1=0, v2=0), 1)
    v = p.sgs * p.sgs % P
    c = Ctx({'mu': p.mus, 'sigma^2': v, 'sigma': p.sgs})
    q = lambda n, a: dict(q="norm", n=n, a=a, b=v)
    for n in range(0, L + 1):
        s.ask(f"mnorm({n})", q(n, p.mus), lambda: lib(("m", n), lambda: cpp_mom.mnorm(n)), c)
        s.ask(f"cmnorm({n})", q(n, 0), lambda: lib(("c", n), lambda: utils.cmnorm(n)), c)
    return s


def ito_two_all(p, lib, order, at):
    """all joint moments below an order, from one request"""
    from itertools import product
    from ajdmom import itos_mom
    from vlib import T0
    clk, pt = p.time(), p.time()
    s = Session(f"ito2-all{at}")
    s.start("ito2", 2, p.par(rho=0), dict(kind="det", v1=p.v1, v2=p.v2), order, clk)
    s.place(pt)
    c = Ctx({T0: p.t0, 'e^{(m_4*k1+m_6*k2)(n-1)h}': (clk['e1'], clk['e2']),
             'e^{(j_1*k1+j_2*k2)[t-(n-1)h]}': (pt['e1'], pt['e2']), '[t-(n-1)h]': pt['t'],
             'v_{1,n-1}': p.v1, 'theta1': p.th1, 'sigma_v1': p.s1,
             'v_{2,n-1}': p.v2, 'theta2': p.th2, 'sigma_v2': p.s2})
    os = [o for o in product(range(order), repeat=5) if sum(o) < order] + [tuple(at)]
    for o in os:
        s.ask(f"moment_IEI_IEII{tuple(at)},return_all)[{o}]", one(0, 0, *o),
              lambda: lib("all", lambda: itos_mom.moment_IEI_IEII(*at, return_all=True))[o], c)
    return s
