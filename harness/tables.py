"""Units on enumerations, jump sums and written files (TraceTables)."""
import ast
import csv
import io
import os
import time
from contextlib import redirect_stdout
from fractions import Fraction
from itertools import product

import polys
import vlib
from scalars import real
from polys import is_int


class Log:
    def __init__(self, r):
        self.r, self.ev, self.notes, self.t0 = r, [], {}, time.time()

    def put(self, ident, op, call, make, want=""):
        vlib.phase("lib " + ident)
        try:
            with redirect_stdout(io.StringIO()):
                got = call()
            e = dict(make(got), op=op, id=ident, want=str(want), seen=str(got)[:120])
        except Exception as ex:
            e = dict(op="broken", id=ident, want=str(want), seen=f"{type(ex).__name__}: {ex}"[:200])
        self.ev.append(e)

    def judge(self, tag):
        self.r.lib_s += time.time() - self.t0
        self.r.sample({k: v for k, v in self.ev[len(self.ev) // 2].items() if k != "want"})
        self.r.judge("TraceTables", "TraceTables.cfg", self.ev, tag, self.notes)


def ints2(x):
    if not isinstance(x, (list, tuple)) or not all(isinstance(y, (list, tuple)) and all(map(is_int, y)) for y in x):
        raise TypeError(f"{x!r} is no list of lists of integers")
    return [list(y) for y in x]


def count(x):
    if isinstance(x, bool) or x != int(x):
        raise TypeError(f"{x!r} is no integer")
    return real(int(x))


def residue(x):
    if isinstance(x, bool) or x != int(x):
        raise TypeError(f"{x!r} is no integer")
    return int(x) % vlib.P


def enums(r, top):
    from ajdmom import utils
    L = Log(r)
    for n in range(1, 6):
        for m in range(1, 8):
            if m ** n <= 700 * top and hasattr(utils, "multilevel_index"):
                L.put(f"multilevel_index({n},{m})", "index", lambda: utils.multilevel_index(n, m),
                      lambda g: dict(n=n, m=m, got=ints2(g)), "every tuple once")
    for n in range(1, 7):
        for m in range(0, 9):
            if (m + 1) ** (n - 1) <= 3000 * top and hasattr(utils, "multilevel_comb"):
                L.put(f"multilevel_comb({n},{m})", "comps", lambda: utils.multilevel_comb(n, m),
                      lambda g: dict(n=n, m=m, got=ints2(g)), "every composition once")
    for n in range(1, 5):
        for ks in product(range(5), repeat=n):
            if sum(ks) <= 12:
                L.put(f"comb({sum(ks)},{list(ks)})", "multi", lambda: utils.comb(sum(ks), list(ks)),
                      lambda g: dict(ks=list(ks), got=count(g)), "the multinomial coefficient")
    for n in range(0, 29):
        L.put(f"dbfactorial({n})", "dfact", lambda: utils.dbfactorial(n), lambda g: dict(n=n, got=count(g)),
              "the double factorial")
    # exact also where the numbers have hundreds of digits
    rng = r.rng
    for i in range(60 * min(top, 4)):
        ks = [rng.choice([0, 1, 2, rng.randint(3, 12), rng.randint(10, 60)]) for _ in range(rng.randint(1, 6))]
        L.put(f"comb({sum(ks)},{ks})", "multiP", lambda: utils.comb(sum(ks), ks),
              lambda g: dict(ks=ks, got=residue(g)), "the multinomial coefficient")
    for n in list(range(20, 101)) + [150, 151, 200, 299]:
        L.put(f"dbfactorial({n})", "dfactP", lambda: utils.dbfactorial(n), lambda g: dict(n=n, got=residue(g)),
              "the double factorial")
    L.judge("enums")


def jumpsums(r, reps):
    """fZ and its variants on arbitrary (also unordered and simultaneous) jump paths"""
    from ajdmom import utils
    from ajdmom.mdl_srjd import cond2_mom
    L = Log(r)
    rng = r.rng
    for i in range(reps):
        nj = rng.choice([0, 1, 1, 2, 2, 3, 4])
        k = round(rng.uniform(0.1, 2), 3)
        s = [round(rng.uniform(0.05, 1.5), 3) for _ in range(nj)]
        if nj > 1 and i % 5 == 0:
            s[1] = s[0]
        if i % 2:
            s.sort()
        J = [round(rng.uniform(0.05, 1.5), 3) for _ in range(nj)]
        order = sorted(range(nj), key=lambda j: s[j])
        path = [dict(S=real(s[j]), J=real(J[j]), r=order.index(j)) for j in range(nj)]
        wrap = tuple if i % 3 else list
        n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4]) if nj <= 3 else rng.choice([1, 2, 3])
        v = lambda c: tuple(rng.randint(-2, 3) for _ in range(c))
        l, o, p, q = v(n), tuple(abs(x) for x in v(n)), v(max(n - 1, 0)), tuple(abs(x) for x in v(max(n - 1, 0)))
        base = dict(k=real(k), path=path)
        ident = f"fZ({l},{o},{p},{q}) at {k} {s} {J}"
        L.put("utils." + ident, "fz", lambda: utils.fZ(l, o, p, q, k, wrap(s), wrap(J)),
              lambda g: dict(base, l=l, o=o, p=p, q=q, got=real(g)), "the sum over all tuples")
        if n <= 3 or nj <= 2:
            z = (0,) * n
            L.put(f"srjd.fZ({l},{p}) at {k} {s} {J}", "fz", lambda: cond2_mom.fZ(l, p, k, wrap(s), wrap(J)),
                  lambda g: dict(base, l=l, o=z, p=p, q=z[1:], got=real(g)), "the sum over all tuples")
        if n and nj:
            ix = [rng.randrange(nj) for _ in range(n)]
            L.put(f"utils.fZ_each_index{ix} " + ident, "fz1",
                  lambda: utils.fZ_each_index(l, o, p, q, k, wrap(s), wrap(J), ix),
                  lambda g: dict(base, l=l, o=o, p=p, q=q, index=ix, got=real(g)), "the term of this tuple")
    L.judge("jumpsums")


# ------------------------------------------------------------ files
def lists(x):
    return [lists(c) for c in x] if isinstance(x, (tuple, list)) else x


def terms(poly):
    return [[lists(k), str(Fraction(v).numerator),
             str(Fraction(v).denominator)] for k, v in poly.items()]


def cell(x):
    try:
        return int(x)
    except ValueError:
        return lists(ast.literal_eval(x)) if x.startswith("(") else x


def cells(row):
    """the cells of a line; commas inside brackets separate nothing"""
    if '"' in row:
        return next(csv.reader([row]))
    out, depth = [""], 0
    for c in row:
        depth += {"(": 1, ")": -1}.get(c, 0)
        if c == "," and not depth:
            out.append("")
        else:
            out[-1] += c
    return out


def read_csv(path):
    with open(path, encoding="utf-8", newline="") as f:
        text = [x for x in f.read().splitlines() if x]
    rows = [cells(x) for x in text]
    return dict(title=next(csv.reader(text[:1])), line=text[0], rows=[[[cell(c) for c in x[:-2]], x[-2], x[-1]] for x in rows[1:]])


def read_txt(path):
    with open(path, encoding="utf-8") as f:
        lines = [x.rstrip("\n") for x in f if x.strip()]
    kf = ast.literal_eval(lines[0].rsplit(": ", 1)[0])
    rows = []
    for x in lines[1:]:
        key, val = x.rsplit(": ", 1)
        num, den = val.strip().strip("()").split(",")
        key = ast.literal_eval(key)
        rows.append([lists(key), num.strip(), den.strip()])
    return dict(title=list(kf), rows=rows)


PLAIN = [polys.KF_FSV, polys.KF_SVCJ, ("e", "h"), ("x",), ("k^{-}", "mu", "theta", "sigma_v", "rho")]
JUMPY = [polys.KF_VVJ, polys.KF_VVJ[:6] + polys.JUMPS + ("rho",),
         ("v_0", "k^{-}", "theta", "sigma", "e^{kt}", "l_{1:n}", "o_{2:n}"),
         polys.JUMPS, ("t",) + polys.JUMPS]


RATES = "(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}"
TWO = [(RATES, "e^{-(n1*k1+n2*k2)h}", "h", "mu", "theta1"), ("theta1", RATES), (RATES, "e^{-(n1*k1+n2*k2)h}")]


def any_compound(rng, kf, n):
    from ajdmom.poly import Poly
    p = Poly()
    p.set_keyfor(kf)
    for _ in range(n):
        p[tuple(tuple(tuple(rng.randint(-9, 12) for _ in range(3)) for _ in range(rng.choice([0, 1, 1, 2, 5])))
                if x == RATES else (rng.randint(-9, 12), rng.randint(-3, 30)) if x.startswith("e^{-(")
                else rng.randint(-3, 12) for x in kf)] = Fraction(rng.choice([-1, 1]) * rng.randint(1, 99), rng.choice([1, 7, 3 ** 50]))
    return p


def any_poly(rng, kf, n, level):
    from ajdmom.poly import Poly
    p = Poly()
    p.set_keyfor(kf)
    for _ in range(n):
        key = []
        for x in kf:
            m = {"l_{1:n}": level, "o_{1:n}": level}.get(x, max(level - 1, 0))
            key.append(tuple(rng.randint(-3, 12) for _ in range(m)) if x in vlib.JUMP4 + ("o_{2:n}",)
                       else rng.randint(-12, 25))
        big = rng.choice([1, 1, 10 ** 12, 3 ** 60])
        v = Fraction(rng.choice([-1, 1]) * rng.randint(1, 99) * big, rng.choice([1, 7, 2 ** 70, 360]))
        p[tuple(key)] = int(v) if v.denominator == 1 and rng.random() < 0.5 else v
    return p


def files(r, reps):
    L = Log(r)
    rng = r.rng
    out = os.path.join(r.box, "files")
    os.mkdir(out)

    def check(ident, p, level, j, kinds=("csv", "txt")):
        before = polys.enc(p, str) if set(p.keyfor) <= set(polys.KIND) else None
        for kind in kinds:
            name = os.path.join(out, f"f{j}.{rng.choice(['v1.2', 'a', 'x y'])}")
            # with the extension or without it
            given = name + "." + kind if (j + len(kind)) % 2 else name
            read = read_csv if kind == "csv" else read_txt

            def call():
                (p.write_to_csv if kind == "csv" else p.write_to_txt)(given)
                return read(name + "." + kind)
            if j % 3 == 0:             # an existing file is replaced
                with open(name + "." + kind, "w") as f:
                    f.write("left over\n" * 50)
            L.put(f"write_to_{kind} {ident}", kind, call,
                  lambda g: dict(kf=list(p.keyfor), t=terms(p), n=level, **g), "every term once")
        if before is not None and polys.enc(p, str) != before:
            r.fail(f"write {ident}", "the formula is unchanged", "changed")
    j = 0
    for i in range(reps):
        for kf in PLAIN:
            check(f"random {i} {kf}", any_poly(rng, kf, rng.choice([0, 1, 4, 12]), 0), 0, j)
            j += 1
        for w, kf in enumerate(TWO):
            check(f"random {i} two rates {w}", any_compound(rng, kf, rng.choice([0, 1, 4, 12])), 0, j)
            j += 1
        for kf in JUMPY:
            lv = rng.randint(0, 3)
            n = rng.choice([0, 1, 4, 12])
            check(f"random {i} {kf} level {lv}", any_poly(rng, kf, n, lv), lv if n else 0, j)
            j += 1
    # formulas of the library
    from ajdmom.mdl_1fsv import mom, cmom
    from ajdmom.mdl_1fsvj import cov
    from ajdmom.mdl_2fsvj import mom as m2
    from ajdmom.mdl_2fsv import cov as c2
    from ajdmom import itos_mom
    from ajdmom.mdl_svvj import cond2_cmom as v
    from ajdmom.mdl_srjd import cond2_mom as s
    from ajdmom.mdl_svcj import cond2_mom as cj
    for name, p in (("1fsv.moment_y(3)", mom.moment_y(3)), ("1fsv.cmoment_y(4)", cmom.cmoment_y(4)),
                    ("1fsvj.cov_yy(1,2)", cov.cov_yy(1, 2))):
        check(name, p, 0, j)
        j += 1
    check("2fsvj.moment_y(2)", m2.moment_y(2), 0, j)
    check("itos.moment_IEI_IEII(2,1,1,0,0)", itos_mom.moment_IEI_IEII(2, 1, 1, 0, 0), 0, j + 40)
    check("2fsv.cov_yy(1,2)", c2.cov_yy(1, 2), 0, j + 41)
    check("svcj.moment_y(2)", cj.moment_y(2, [0.1, 0.2]), 0, j + 1, ("txt",))
    p = s.moment_v(2)
    check("srjd.moment_v(2)", p, 0, j + 2, ("txt",))
    c = v.cmoment_y(3)
    check("svvj.cmoment_y(3)", c, 0, j + 3, ("txt",))
    j += 4
    cl = getattr(v, "classify", None)
    for i, p in enumerate(cl(c) if cl else ()):
        check(f"svvj.cmoment_y(3) level {i}", p, i, j)
        j += 1
    w = getattr(v, "write_to_subpolys", None)
    if w and cl:
        os.chdir(out)
        try:
            with redirect_stdout(io.StringIO()):
                w(c, 3)
        except Exception as ex:
            r.fail("write_to_subpolys", "files", type(ex).__name__)
    # mixed numbers of jump indices cannot be one table
    for kf in JUMPY:
        p = any_poly(rng, kf, 3, 1)
        for k, x in any_poly(rng, kf, 3, 2).items():
            p[k] = x
        try:
            with redirect_stdout(io.StringIO()):
                p.write_to_csv(os.path.join(out, "mixed.csv"))
            r.fail(f"write_to_csv mixed {kf}", "an error", "a file")
        except Exception:
            r.good()
    L.judge("files")
