------------------------------- MODULE Affine -------------------------------
(***************************************************************************)
(* Moments of affine jump diffusions from their infinitesimal generator.    *)
(*                                                                         *)
(* A process is a sequence of generator terms                               *)
(*      [c, a, D, M]  :   c * exp(a.k t) * x^M * d^D/dx^D                    *)
(* and, for the jumps, of families                                          *)
(*      lam * sum over D # 0 of  E[J^D]/D! d^D                               *)
(* (a jump of random size J at rate lam; J has the components at).          *)
(* Applied to the monomial x^al a term gives                                *)
(*      c * exp(a.k t) * falling(al, D) * x^(al - D + M),                    *)
(* so the moments m_al(t) = E[x_t^al] obey a triangular linear ODE system   *)
(* that Solve closes order by order into quasi-polynomials of time.         *)
(* Nothing here is taken from the implementation's own recursions: those    *)
(* use Ito isometry recursions over (IE, I, I* ) and MGF derivatives.       *)
(***************************************************************************)
EXTENDS QPoly

U(d, i) == [j \in 1 .. d |-> IF j = i THEN 1 ELSE 0]
Z(d)    == [j \in 1 .. d |-> 0]
Plus(x, y) == [j \in DOMAIN x |-> x[j] + y[j]]
Term(c, a, D, M) == [c |-> c % P, a |-> a, D |-> D, M |-> M]
NoExp == <<0, 0>>

(* moments of the jump laws *)
ExpMom(mu, n) == Mul(FactP(n), PowN(mu, n))            \* exponential, mean mu
RECURSIVE NormGo(_, _, _, _, _, _)                     \* a, b: moments i - 1 and i
NormGo(mu, var, n, i, a, b) ==
    IF i = n THEN b
    ELSE LET c == TLCEval(Add(Mul(mu, b), Mul(Mul(i, var), a)))
         IN  NormGo(mu, var, n, i + 1, b, c)
NormMom(mu, var, n) == IF n = 0 THEN 1 ELSE NormGo(mu, var, n, 1, 1, mu % P)   \* normal(mu, var)
(* E[Jv^a Js^b],  Jv ~ exp(muv),  Js | Jv ~ normal(mus + rhoJ Jv, vs)         *)
JointJump(p, a, b) ==
    SumOver(0 .. b, LAMBDA c :
        Mul(Mul(CombP(b, c), PowN(p.rhoJ, c)),
            Mul(ExpMom(p.muv, a + c), NormMom(p.mus, p.vs, b - c))))

(* ---- price models: x = <<v1, v2, y, z>>  (z: an earlier observed return) *)
PriceDiff(p, nv) ==
    LET d == 4  half == Inv(2)
        v1 == U(d, 1) v2 == U(d, 2) y == U(d, 3) o == Z(d)
    IN << Term(Mul(p.k1, p.th1), NoExp, v1, o), Term(Neg(p.k1), NoExp, v1, v1),
          Term(Mul(half, Mul(p.s1, p.s1)), NoExp, Plus(v1, v1), v1),
          Term(p.mu, NoExp, y, o),
          Term(Neg(half), NoExp, y, v1),
          Term(half, NoExp, Plus(y, y), v1),
          Term(Mul(p.rho, p.s1), NoExp, Plus(v1, y), v1) >>
       \o (IF nv = 1 THEN << >> ELSE
       << Term(Mul(p.k2, p.th2), NoExp, v2, o), Term(Neg(p.k2), NoExp, v2, v2),
          Term(Mul(half, Mul(p.s2, p.s2)), NoExp, Plus(v2, v2), v2),
          Term(Neg(half), NoExp, y, v2),
          Term(half, NoExp, Plus(y, y), v2) >>)
(* jumps: contemporaneous (Jv, Js) in v1 and y, and independent in y         *)
PriceJumps(p, N) ==
    LET B == { b \in (0 .. N) \X (0 .. N) : b[1] + b[2] <= N }
    IN  (IF p.lam = 0 THEN << >> ELSE
         << [lam |-> p.lam, at |-> <<1, 3>>, es |-> 1, w |-> 0,
             m |-> TLCEval([b \in B |-> JointJump(p, b[1], b[2])])] >>)
        \o (IF p.lam2 = 0 THEN << >> ELSE
         << [lam |-> p.lam2, at |-> <<3>>, es |-> 1, w |-> 0,
             m |-> TLCEval([b \in { <<i>> : i \in 0 .. N } |-> NormMom(p.mus2, p.vs2, b[1])])] >>)

(* ---- joint Ito integrals, one factor:                                    *)
(*   x = <<v, IE, I, IS, IEZ, IZ, IZS>>  over [s, t],  es = exp(k s)          *)
Ito1(p, es) ==
    LET d == 7  half == Inv(2)  o == Z(d)
        v == U(d, 1) ie == U(d, 2) i1 == U(d, 3) is == U(d, 4)
    IN << Term(Mul(p.k1, p.th1), NoExp, v, o), Term(Neg(p.k1), NoExp, v, v),
          Term(Mul(half, Mul(p.s1, p.s1)), NoExp, Plus(v, v), v),
          Term(Mul(half, Mul(es, es)), <<2, 0>>, Plus(ie, ie), v),
          Term(es, <<1, 0>>, Plus(ie, i1), v),
          Term(half, NoExp, Plus(i1, i1), v),
          Term(half, NoExp, Plus(is, is), v),
          Term(Mul(p.s1, es), <<1, 0>>, Plus(v, ie), v),
          Term(p.s1, NoExp, Plus(v, i1), v) >>
(* jumps: Jv in v and IZ, exp(k s) Jv in IEZ, Js in IZS (here not depending on Jv) *)
Ito1Jumps(p, es, N) ==
    IF p.lam = 0 THEN << >>
    ELSE LET e == TLCEval([n \in 0 .. N |-> ExpMom(p.muv, n)])
             g == TLCEval([n \in 0 .. N |-> NormMom(p.mus, p.vs, n)])
         IN  << [lam |-> p.lam, at |-> <<1, 5, 6, 7>>, es |-> es, w |-> 2, m |-> [v |-> e, s |-> g]] >>
(* E[J^b] of a family, and its dependence on time                            *)
JumpMom(j, b) == IF Len(b) = 4 THEN Mul(j.m.v[b[1] + b[2] + b[3]], j.m.s[b[4]]) ELSE j.m[b]
JumpExp(j, b) == IF j.w = 0 THEN 0 ELSE b[j.w]
Below(t) ==                       \* all tuples below t
    CASE Len(t) = 1 -> { <<i>> : i \in 0 .. t[1] }
      [] Len(t) = 2 -> (0 .. t[1]) \X (0 .. t[2])
      [] Len(t) = 4 -> (0 .. t[1]) \X (0 .. t[2]) \X (0 .. t[3]) \X (0 .. t[4])
JumpActive(C, j, al) ==
    LET top == [i \in DOMAIN j.at |-> al[j.at[i]]]
        bs == SetToSeq(Below(top) \ {[i \in DOMAIN top |-> 0]})
        Minus(b) == [x \in DOMAIN al |->
                       FoldSeq(LAMBDA i, acc : IF j.at[i] = x THEN acc - b[i] ELSE acc, al[x],
                               [i \in 1 .. Len(b) |-> i])]
    IN  [n \in 1 .. Len(bs) |-> LET b == bs[n] IN
            [c |-> Mul(Mul(j.lam, Mul(JumpMom(j, b), PowN(j.es, JumpExp(j, b)))),
                       FoldSeq(LAMBDA i, acc : Mul(acc, C[top[i]][b[i]]), 1, [i \in 1 .. Len(b) |-> i])),
             a |-> <<JumpExp(j, b), 0>>, tgt |-> Minus(b)]]
(* Pascal's triangle                                                         *)
RECURSIVE PascalGo(_, _)
PascalGo(N, rows) ==
    IF Len(rows) = N + 1 THEN rows
    ELSE LET r == rows[Len(rows)]  n == Len(rows)
             nxt == TLCEval([i \in 0 .. n |-> IF i = 0 \/ i = n THEN 1 ELSE Add(r[i - 1], r[i])])
         IN  PascalGo(N, Append(rows, nxt))
Pascal(N) == LET rows == PascalGo(N, << [i \in 0 .. 0 |-> 1] >>)
             IN  TLCEval([n \in 0 .. N |-> rows[n + 1]])
(* a generator: its diffusive terms, its jumps, and binomials up to the order *)
Generator(terms, jumps, N) ==
    [terms |-> terms, jumps |-> jumps, C |-> IF jumps = << >> THEN << >> ELSE Pascal(N)]

(* ---- joint Ito integrals, two factors:                                   *)
(*   x = <<v1, v2, IE1, I1, IE2, I2, IS>>                                    *)
Ito2(p, es1, es2) ==
    LET d == 7  half == Inv(2)  o == Z(d)
        v1 == U(d, 1) v2 == U(d, 2) e1 == U(d, 3) i1 == U(d, 4)
        e2 == U(d, 5) i2 == U(d, 6) is == U(d, 7)
    IN << Term(Mul(p.k1, p.th1), NoExp, v1, o), Term(Neg(p.k1), NoExp, v1, v1),
          Term(Mul(half, Mul(p.s1, p.s1)), NoExp, Plus(v1, v1), v1),
          Term(Mul(p.k2, p.th2), NoExp, v2, o), Term(Neg(p.k2), NoExp, v2, v2),
          Term(Mul(half, Mul(p.s2, p.s2)), NoExp, Plus(v2, v2), v2),
          Term(Mul(half, Mul(es1, es1)), <<2, 0>>, Plus(e1, e1), v1),
          Term(es1, <<1, 0>>, Plus(e1, i1), v1),
          Term(half, NoExp, Plus(i1, i1), v1),
          Term(Mul(p.s1, es1), <<1, 0>>, Plus(v1, e1), v1),
          Term(p.s1, NoExp, Plus(v1, i1), v1),
          Term(Mul(half, Mul(es2, es2)), <<0, 2>>, Plus(e2, e2), v2),
          Term(es2, <<0, 1>>, Plus(e2, i2), v2),
          Term(half, NoExp, Plus(i2, i2), v2),
          Term(Mul(p.s2, es2), <<0, 1>>, Plus(v2, e2), v2),
          Term(p.s2, NoExp, Plus(v2, i2), v2),
          Term(half, NoExp, Plus(is, is), v1), Term(half, NoExp, Plus(is, is), v2) >>

(* ---- closing the moment equations ---------------------------------------*)
Leq(D, al) == \A j \in DOMAIN al : D[j] <= al[j]
Fall(al, D) == FoldSeq(LAMBDA j, acc : Mul(acc, FallP(al[j], D[j])), 1,
                       [j \in 1 .. Len(al) |-> j])
Target(al, t) == [j \in DOMAIN al |-> al[j] - t.D[j] + t.M[j]]
Active(gen, al) ==
    LET ts == SelectSeq(gen.terms, LAMBDA t : t.c # 0 /\ Leq(t.D, al))
    IN  [i \in 1 .. Len(ts) |-> [c |-> Mul(ts[i].c, Fall(al, ts[i].D)), a |-> ts[i].a,
                               tgt |-> Target(al, ts[i])]]
        \o FlattenSeq([i \in 1 .. Len(gen.jumps) |-> JumpActive(gen.C, gen.jumps[i], al)])

(* number of variance components per model: they carry the mean reversion *)
Rate(nv, al) == IF nv = 1 THEN <<al[1], 0>> ELSE <<al[1], al[2]>>

(* initial moments of a segment: known variances and zero integrals ("det"), *)
(* a table ("map", absent entries are 0)                                     *)
InitVal(init, nv, al) ==
    IF init.kind = "det"
    THEN IF \E j \in (nv + 1) .. Len(al) : al[j] # 0 THEN 0
         ELSE IF nv = 1 THEN PowN(init.v1, al[1])
              ELSE Mul(PowN(init.v1, al[1]), PowN(init.v2, al[2]))
    ELSE IF al \in DOMAIN init.f THEN init.f[al] ELSE 0

(* env: [gen, nv, k1, k2, init]                                              *)
RECURSIVE Solve(_, _, _)
Solve(env, al, memo) ==
    IF al \in DOMAIN memo THEN memo
    ELSE
      LET ts == Active(env.gen, al)
          deps == { ts[i].tgt : i \in DOMAIN ts } \ {al}
          m1 == FoldSet(LAMBDA b, acc : Solve(env, b, acc), memo, deps)
          r == Rate(env.nv, al)
          rest == SelectSeq(ts, LAMBDA t : t.tgt # al)
          \* exp(r.k s) * (forcing)
          g == QLin([i \in 1 .. Len(rest) |->
                       [c |-> rest[i].c, s |-> <<rest[i].a[1] + r[1], rest[i].a[2] + r[2]>>,
                        q |-> m1[rest[i].tgt]]])
          q == QLin(<< [c |-> 1, s |-> <<-r[1], -r[2]>>, q |-> QConst(InitVal(env.init, env.nv, al))],
                       [c |-> 1, s |-> <<-r[1], -r[2]>>, q |-> QInt(g, env.k1, env.k2)] >>)
      IN  m1 @@ (al :> TLCEval(q))

(* self term of the generator must be exactly the mean reversion -r.k        *)
SelfOK(env, al) ==
    LET ts == SelectSeq(Active(env.gen, al), LAMBDA t : t.tgt = al)
        r == Rate(env.nv, al)
    IN  /\ \A i \in DOMAIN ts : ts[i].a = NoExp
        /\ SumSeq([i \in 1 .. Len(ts) |-> ts[i].c]) = Neg((r[1] * env.k1 + r[2] * env.k2) % P)

(* stationary moments of the variance components: 0 = E[A x^al]              *)
RECURSIVE StatSolve(_, _, _)
StatSolve(env, al, memo) ==
    IF al \in DOMAIN memo THEN memo
    ELSE LET ts == Active(env.gen, al)
             rest == SelectSeq(ts, LAMBDA t : t.tgt # al)
             deps == { rest[i].tgt : i \in DOMAIN rest }
             m1 == FoldSet(LAMBDA b, acc : StatSolve(env, b, acc), memo, deps)
             tot == SumSeq([i \in 1 .. Len(rest) |-> Mul(rest[i].c, m1[rest[i].tgt])])
             r == Rate(env.nv, al)
         IN  m1 @@ (al :> Mul(tot, Inv((r[1] * env.k1 + r[2] * env.k2) % P)))
============================================================================
