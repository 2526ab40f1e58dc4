----------------------------- MODULE AJDMachine -----------------------------
(***************************************************************************)
(* The state machine of an affine jump diffusion seen through its moments.  *)
(*                                                                         *)
(*   Start    choose a model, parameters and an initial law of the state    *)
(*   Place    let the process diffuse for a time t inside the current       *)
(*            segment (read-only: moves the observation point)              *)
(*   Commit   make the observation point the start of a new segment         *)
(*   JumpAt   a jump of known size J in the variance (with the price jump   *)
(*            correlated with it, if the model has one)                     *)
(*   Observe  record the return of the finished interval and restart it     *)
(*                                                                         *)
(* The abstract state is the table of all moments up to the chosen order.   *)
(* Queries (the values users ask the library for) are functions of it.      *)
(***************************************************************************)
EXTENDS Affine

VARIABLES mode,   \* "price", "ito1", "ito2", or "none" before Start
          par,    \* parameter residues
          env,    \* [gen, nv, k1, k2, init]
          memo,   \* moments of the current segment, as functions of time
          clk,    \* [e1, e2, t]: exp(k1 s), exp(k2 s), s at the segment start
          at,     \* [e1, e2, t]: the observation point, relative to the segment start
          ord     \* highest order asked for

vars == <<mode, par, env, memo, clk, at, ord>>

Dim(m) == IF m = "price" THEN 4 ELSE 7
Zero(m) == [j \in 1 .. Dim(m) |-> 0]

Gen(m, p, nv, c, N) ==
    IF m = "price" THEN Generator(PriceDiff(p, nv), PriceJumps(p, N), N)
    ELSE IF m = "ito1" THEN Generator(Ito1(p, c.e1), Ito1Jumps(p, c.e1, N), N)
    ELSE Generator(Ito2(p, c.e1, c.e2), << >>, N)

(* Orders tracked across segments: every moment of total degree <= L.        *)
(* The generators never raise the total degree, so this set is closed.       *)
Deg(al) == SumInt(al)
Need(m, nv, L) ==
    LET V2 == IF nv = 1 THEN {0} ELSE 0 .. L
        S == IF m = "price" THEN (0 .. L) \X V2 \X (0 .. L) \X (0 .. L)
             ELSE (0 .. L) \X (0 .. L) \X (0 .. L) \X (0 .. L) \X {0} \X {0} \X {0}
    IN  { al \in S : Deg(al) <= L }

Point0 == [e1 |-> 1, e2 |-> 1, t |-> 0]

StatInit(e, L) ==
    LET S == { <<i, j, 0, 0>> : i \in 0 .. L, j \in (IF e.nv = 1 THEN {0} ELSE 0 .. L) }
        S1 == { al \in S : Deg(al) <= L }
        tab == FoldSet(LAMBDA al, acc : StatSolve(e, al, acc),
                       (<<0, 0, 0, 0>> :> 1), S1)
    IN  [kind |-> "map", f |-> TLCEval([al \in S1 |-> tab[al]])]

Init == /\ mode = "none" /\ par = << >> /\ env = << >> /\ memo = << >>
        /\ clk = Point0 /\ at = Point0 /\ ord = 0

MemoInit(m) == (Zero(m) :> QConst(1))

(* initial law: "det" (v1, v2 known) or "stat" (stationary variances)        *)
Start(m, nv, p, law, s, L) ==
    LET g == TLCEval(Gen(m, p, nv, s, L))
        e0 == [gen |-> g, nv |-> nv, k1 |-> p.k1, k2 |-> p.k2, init |-> [kind |-> "none"]]
        i == IF law.kind = "stat" THEN StatInit(e0, L) ELSE law
    IN  /\ mode' = m /\ par' = p /\ ord' = L
        /\ env' = [e0 EXCEPT !.init = i]
        /\ memo' = MemoInit(m)
        /\ clk' = s /\ at' = Point0

Place(pt) ==
    /\ at' = pt /\ UNCHANGED <<mode, par, env, memo, clk, ord>>

(* the closure of the queried moments, evaluated at the observation point    *)
(* (an order beyond ord would be answered from a truncated jump generator)   *)
Closed(S) == IF Assert(\A al \in S : Deg(al) <= ord, <<"query beyond the declared order", S>>)
             THEN FoldSet(LAMBDA al, acc : Solve(env, al, acc), memo, S) ELSE memo
ValIn(tab, al) == QEval(tab[al], at.e1, at.e2, at.t)

Relaunch(f, c) ==
    /\ env' = [env EXCEPT !.gen = TLCEval(Gen(mode, par, env.nv, c, ord)),
                          !.init = [kind |-> "map", f |-> f]]
    /\ memo' = MemoInit(mode)
    /\ clk' = c /\ at' = Point0
    /\ UNCHANGED <<mode, par, ord>>

Now == LET S == Need(mode, env.nv, ord)  tab == Closed(S)
       IN  TLCEval([al \in S |-> ValIn(tab, al)])
ClkNow == [e1 |-> Mul(clk.e1, at.e1), e2 |-> Mul(clk.e2, at.e2), t |-> Add(clk.t, at.t)]

Commit == Relaunch(Now, ClkNow)

(* x_1 jumps by J; in a price model y jumps by normal(mus + rhoJ J, vs)       *)
Shifted(f, J) ==
    LET yj(b) == IF mode = "price" THEN NormMom(Add(par.mus, Mul(par.rhoJ, J)), par.vs, b)
                 ELSE 0
        down(al, a, b) == IF mode = "price" THEN <<al[1] - a, al[2], al[3] - b, al[4]>>
                          ELSE [al EXCEPT ![1] = al[1] - a]
        bmax(al) == IF mode = "price" THEN al[3] ELSE 0
    IN  TLCEval([al \in DOMAIN f |->
          SumOver((0 .. al[1]) \X (0 .. bmax(al)), LAMBDA ab :
            Mul(Mul(CombP(al[1], ab[1]), PowN(J, ab[1])),
                Mul(IF ab[2] = 0 THEN 1 ELSE Mul(CombP(al[3], ab[2]), yj(ab[2])),
                    f[down(al, ab[1], ab[2])])))])
JumpAt(J) == Relaunch(Shifted(Now, J), ClkNow)

(* y becomes the observed return z, a new interval starts                    *)
Observed(f) ==
    TLCEval([al \in DOMAIN f |->
        IF al[3] # 0 THEN 0 ELSE f[<<al[1], al[2], al[4], 0>>]])
Observe == mode = "price" /\ Relaunch(Observed(Now), ClkNow)

(* ---- queries ------------------------------------------------------------*)
OneC(c, n) == [j \in 1 .. Dim(mode) |-> IF j = c THEN n ELSE 0]
(* E[(a X_c + b)^n * rest]                                                    *)
AffSet(al, c, n) == { [al EXCEPT ![c] = i] : i \in 0 .. n }
AffVal(tab, al, c, n, a, b) ==
    SumOver(0 .. n, LAMBDA i :
        Mul(CombP(n, i), Mul(Mul(PowN(a, i), PowN(b, n - i)), ValIn(tab, [al EXCEPT ![c] = i]))))

(* memo needed for a query, and its value.  q is a record with field "q".     *)
QNeed(q) ==
    IF q.q = "raw" THEN { q.al }
    ELSE IF q.q \in {"central", "ccentral"} THEN AffSet(q.al, q.c, q.n) \cup { OneC(q.c, 1) }
    ELSE IF q.q = "affine" THEN AffSet(q.al, q.c, q.n)
    ELSE IF q.q = "cov" THEN { <<0, 0, q.n, q.m>>, <<0, 0, q.n, 0>>, <<0, 0, 0, q.m>> }
    ELSE {}
QVal(tab, q) ==
    IF q.q = "raw" THEN ValIn(tab, q.al)
    ELSE IF q.q = "central"      \* E[(X_c - E X_c)^n * x^al]
    THEN AffVal(tab, q.al, q.c, q.n, 1, Neg(ValIn(tab, OneC(q.c, 1))))
    ELSE IF q.q = "ccentral"     \* E[(a (X_c - E X_c))^n * x^al]
    THEN AffVal(tab, q.al, q.c, q.n, q.a, Neg(Mul(q.a, ValIn(tab, OneC(q.c, 1)))))
    ELSE IF q.q = "affine"       \* E[(a X_c + b)^n * x^al]
    THEN AffVal(tab, q.al, q.c, q.n, q.a, q.b)
    ELSE IF q.q = "cov"          \* cov(z^m, y^n)
    THEN Sub(ValIn(tab, <<0, 0, q.n, q.m>>),
             Mul(ValIn(tab, <<0, 0, q.n, 0>>), ValIn(tab, <<0, 0, 0, q.m>>)))
    ELSE IF q.q = "norm"         \* E[N^n], N normal with mean a, variance b
    THEN NormMom(q.a, q.b, q.n)
    ELSE 0
============================================================================
