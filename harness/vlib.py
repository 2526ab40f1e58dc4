"""Common machinery: parameter points over GF(P), projection of the library's
symbolic results to GF(P), recording of traces, running TLC on them."""
import json
import math
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

P = 46337                       # same prime as spec/Fp.tla
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")


class ResidueZero(ZeroDivisionError):
    """a denominator vanishes at this point of GF(P); says nothing about the library"""


def inv(a):
    a %= P
    if a == 0:
        raise ResidueZero("residue 0 has no inverse: another point is needed")
    return pow(a, P - 2, P)


def fp(x):
    """a rational number as a residue"""
    if isinstance(x, bool):
        raise TypeError("bool coefficient")
    if isinstance(x, int):
        return x % P
    if not isinstance(x, Fraction):
        x = Fraction(x)          # floats: their exact binary value
    return x.numerator * inv(x.denominator) % P


def power(a, n):
    if not isinstance(n, int):
        raise TypeError(f"exponent {n!r} is not an integer")
    return pow(a, n, P) if n >= 0 else pow(inv(a), -n, P)


class ProjectionError(Exception):
    pass


JUMP4 = ('l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}')
JUMP2 = ('l_{1:n}', 'o_{2:n}')
T0 = '(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}'


class Ctx:
    """Meaning of the names in `keyfor` at one point of GF(P).

    sym maps a name to its residue (raised to the exponent), to a pair of
    residues (exponent is a pair), or to a function of the exponent.
    path is a list of jumps (E_j, S_j, J_j) with E_j = exp(k s_j), in time order.
    """

    def __init__(self, sym, path=None):
        self.sym = sym
        self.path = path
        self._fz = {}

    def fz(self, l, o, p, q):
        key = (l, o, p, q)
        if key not in self._fz:
            self._fz[key] = self._fz_eval(*key)
        return self._fz[key]

    def _fz_eval(self, l, o, p, q):
        n = len(l)
        if n == 0:
            if o or p or q:
                raise ProjectionError(f"jump functional {l, o, p, q}")
            return 1
        if not (len(o) == n and len(p) == n - 1 and len(q) == n - 1):
            raise ProjectionError(f"jump functional {l, o, p, q}")
        # dynamic programming on the index of the latest jump so far
        cur = {}
        for j, (E, S, J) in enumerate(self.path):
            cur[j] = power(E, l[0]) * power(S, o[0]) * J % P
        for i in range(1, n):
            nxt = {}
            for mx, w in cur.items():
                for j, (E, S, J) in enumerate(self.path):
                    m2 = max(mx, j)
                    v = w * power(E, l[i]) % P * power(S, o[i]) % P * J % P
                    Em, Sm, _ = self.path[m2]
                    v = v * power(Em, p[i - 1]) % P * power(Sm, q[i - 1]) % P
                    nxt[m2] = (nxt.get(m2, 0) + v) % P
            cur = nxt
        return sum(cur.values()) % P

    def value(self, poly):
        kf = tuple(poly.keyfor)
        n = len(kf)
        # layout of jump functionals
        i4 = kf.index('l_{1:n}') if 'l_{1:n}' in kf else None
        if i4 is None:
            jlen = 0
        elif kf[i4:i4 + 4] == JUMP4:
            jlen = 4
        elif kf[i4:i4 + 2] == JUMP2:
            jlen = 2
        else:
            raise ProjectionError(f"keyfor {kf}")
        cache = {}
        total = 0
        for key, coef in poly.items():
            if not isinstance(key, tuple):
                raise ProjectionError(f"key {key!r} is not a tuple")
            if len(key) != n:
                raise ProjectionError(f"key {key!r} does not match keyfor {kf}")
            val = fp(coef)
            if val == 0:
                continue
            i = 0
            while i < n:
                if i == i4:
                    if jlen == 4:
                        val = val * self.fz(*key[i:i + 4]) % P
                    else:
                        l, o2 = key[i:i + 2]
                        val = val * self.fz(l, (0,) * len(l), o2, (0,) * len(o2)) % P
                    i += jlen
                    continue
                e = key[i]
                ck = (i, e)
                f = cache.get(ck)
                if f is None:
                    s = self.sym.get(kf[i])
                    if s is None:
                        if e == 0 or e == () or e == ((0, 0, 0),):
                            f = 1
                        else:
                            raise ProjectionError(f"no meaning for {kf[i]!r}")
                    elif callable(s):
                        f = s(e)
                    elif isinstance(s, tuple):
                        a, b = e
                        f = power(s[0], a) * power(s[1], b) % P
                    else:
                        f = power(s, e)
                    cache[ck] = f
                val = val * f % P
                i += 1
            total = (total + val) % P
        return total


# ------------------------------------------------------------------ points
class Point:
    """random residues with the genericity the formulas need"""

    def __init__(self, rng, reach=16):
        R = lambda: rng.randrange(2, P - 1)
        while True:
            self.k1, self.k2 = R(), R()
            if all((a * self.k1 + b * self.k2) % P
                   for a in range(-reach, reach + 1) for b in range(-reach, reach + 1)
                   if (a, b) != (0, 0)):
                break
        self.th1, self.s1, self.th2, self.s2, self.mu = R(), R(), R(), R(), R()
        while True:
            u = R()
            d = (1 + u * u) % P
            if d:
                break
        self.rho = (1 - u * u) * inv(d) % P
        self.srho = 2 * u * inv(d) % P           # sqrt(1 - rho^2)
        self.lam, self.muv, self.mus, self.sgs, self.rhoJ = R(), R(), R(), R(), R()
        self.lam2, self.mus2, self.sgs2 = R(), R(), R()
        self.v1, self.v2 = R(), R()
        self.rng = rng

    def R(self):
        return self.rng.randrange(2, P - 1)

    def time(self):
        return dict(e1=self.R(), e2=self.R(), t=self.R())

    def par(self, **kw):
        d = dict(k1=self.k1, th1=self.th1, s1=self.s1, k2=self.k2, th2=self.th2, s2=self.s2,
                 mu=self.mu, rho=self.rho, lam=0, muv=0, mus=0, vs=0, rhoJ=0,
                 lam2=0, mus2=0, vs2=0)
        d.update(kw)
        return d

    def t0(self, e):
        """product of (n1 k1 + n2 k2)^{-i}"""
        val = 1
        for (n1, n2, i) in e:
            if i == 0:
                continue
            val = val * power((n1 * self.k1 + n2 * self.k2) % P, -i) % P
        return val


# ------------------------------------------------------------------ sessions
class Session:
    """one behaviour of AJDMachine, with the library's answers attached"""

    def __init__(self, name):
        self.name = name
        self.ev = []
        self.notes = {}

    def start(self, mode, nv, par, law, order, clk=None):
        self.ev.append(dict(op="start", mode=mode, nv=nv, par=par, law=law, ord=order,
                            clk=clk or dict(e1=1, e2=1, t=0)))

    def place(self, pt):
        self.ev.append(dict(op="place", pt=pt))

    def commit(self):
        self.ev.append(dict(op="commit"))

    def jump(self, J):
        self.ev.append(dict(op="jump", J=J))

    def observe(self):
        self.ev.append(dict(op="observe"))

    def ask(self, call, query, thunk, ctx):
        """query: what the specification is asked; thunk(): the library's result"""
        self.ask_value(call, query, lambda: ctx.value(thunk()))

    def ask_value(self, call, query, f):
        ident = f"{self.name} {call}"
        phase("lib " + ident)
        try:
            got = f()
        except ResidueZero:
            raise
        except Exception as e:      # the library (or its result) is unusable here
            got = -1
            self.notes[ident] = f"{type(e).__name__}: {e}"
        q = dict(q="raw", al=[], c=0, n=0, m=0, a=0, b=0)
        q.update(query)
        self.ev.append(dict(op="ask", ask=q, got=got, id=ident))

    @property
    def asks(self):
        return sum(1 for e in self.ev if e["op"] == "ask")


def java(heap="3g"):
    return ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC"]


class MachineryError(Exception):
    pass


def tlc(module, cfg, scratch, env=None, extra=(), timeout=800, heap="3g", workers="1", lib=None):
    meta = tempfile.mkdtemp(dir=scratch, prefix="meta")
    jvm = java(heap)
    if lib:                                   # where a module outside spec/ finds the specification
        jvm.insert(1, "-DTLA-Library=" + lib)
    cmd = jvm + ["-metadir", meta, "-workers", workers, "-noGenerateSpecTE",
                        "-config", os.path.join(SPEC, cfg), *extra,
                        os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, cwd=scratch)
    return r.returncode, r.stdout.decode(errors="replace")


def states_of(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def quiet(out):
    return "\n".join(x for x in out.splitlines() if not re.match(
        "Parsing file|Semantic processing|Linting of", x))[-2500:]


def run_trace(module, cfg, events, scratch, tag, timeout=800):
    path = os.path.join(scratch, f"trace-{tag}.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    rc, out = tlc(module, cfg, scratch, env={"TRACE": path}, timeout=timeout)
    m = re.search(r'^"VERDICT (.*)"$', out, re.M)
    if rc != 0 or not m:
        raise MachineryError(f"TLC on {path}: exit {rc}\n{quiet(out)}")
    verdict = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
    verdict["states"] = states_of(out)
    verdict["path"] = path
    return verdict


# ------------------------------------------------------------------ results
PHASE = None


def phase(text):
    if PHASE:
        with open(PHASE + ".tmp", "w") as f:
            f.write(text)
        os.replace(PHASE + ".tmp", PHASE)


class Result:
    """what a unit found"""

    def __init__(self, name, box, rng, tier):
        self.name, self.box, self.rng, self.tier = name, box, rng, tier
        self.ok = self.states = self.transitions = self.traces = self.distinct = 0
        self.bad, self.samples, self.skipped = [], [], []
        self.lib_s = self.tlc_s = 0.0

    def fail(self, case, want, got, note=""):
        if len(self.bad) < 200:
            self.bad.append(dict(case=case, want=str(want)[:300], got=str(got)[:300],
                                 note=str(note)[:400]))

    def good(self, n=1):
        self.ok += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def judge(self, module, cfg, events, tag, notes=None, traces=1, timeout=5000):
        """TLC decides a recorded trace"""
        phase("tlc " + tag)
        t0 = time.time()
        v = run_trace(module, cfg, events, self.box, tag, timeout)
        self.tlc_s += time.time() - t0
        self.ok += v["ok"]
        self.distinct += v["ok"]
        self.transitions += v["states"][0]
        self.states += v["states"][1]
        self.traces += traces
        for b in v["bad"]:
            self.fail(b[0], b[1], b[2], (notes or {}).get(b[0], ""))
        os.unlink(v["path"])
        phase("lib")
        return v

    def out(self):
        return dict(ok=self.ok, bad=self.bad, states=self.states, transitions=self.transitions,
                    traces=self.traces, distinct=self.distinct, samples=self.samples,
                    skipped=self.skipped, lib_s=round(self.lib_s, 2), tlc_s=round(self.tlc_s, 2))
