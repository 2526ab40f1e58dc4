------------------------------ MODULE EulerSim ------------------------------
(***************************************************************************)
(* The simulators as machines that step the discretised equations.            *)
(*                                                                         *)
(* A case is one run of a simulator: its parameters, the random numbers it    *)
(* was given and the values it returned.  The machine consumes the random     *)
(* numbers in any order (which draw drives which noise is not prescribed), so *)
(* a run is right iff some behaviour of the machine returns its values.        *)
(*                                                                         *)
(* Families: "sv1" one variance factor, "sv2" two factors, "path" return       *)
(* given the variance jumps, "srd" the square-root diffusion with given jumps. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils, Real

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c,        \* the case
          k,        \* what depends on the case only
          s         \* the machine
vars == <<c, k, s>>
Case == Cases[c]
P == Case.par

(* ---- arithmetic -------------------------------------------------------------*)
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo          \* lo^2 <= n < hi^2
                    ELSE LET m == (lo + hi) \div 2
                         IN  IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
Half == [s |-> 1, e |-> 0, m |-> <<5000, 0, 0, 0, 0>>]
(* Newton's iteration for 1/sqrt(x)                                              *)
RECURSIVE InvRoot(_, _, _)
InvRoot(x, r, n) ==
    IF n = 0 THEN r
    ELSE InvRoot(x, TLCEval(RMul(RMul(Half, r), RSub(RInt(3), RMul(x, RMul(r, r))))), n - 1)
RSqrt(x) ==
    IF x.s = 0 THEN RZero
    ELSE LET n == x.m[1] * B + x.m[2]
             g == RDivInt(ROne, IF n >= 99980001 THEN 9999 ELSE Isqrt(n, 1, 10001))
             \* sqrt(x) ~ sqrt(n) B^(e/2 - 1)
             r == IF x.e % 2 = 0 THEN [g EXCEPT !.e = @ - x.e \div 2 + 1]
                  ELSE RMul(RInt(100), [g EXCEPT !.e = @ - (x.e - 1) \div 2])
         IN  RMul(x, InvRoot(x, r, 5))
ASSUME \A n \in {1, 2, 99, 100, 4321, 10000, 123456, 99980001} :
          RClose(RMul(RSqrt(RInt(n)), RSqrt(RInt(n))), RInt(n), RInt(n), 4)
ASSUME RClose(RSqrt(RInv(RInt(3))), RInv(RSqrt(RInt(3))), ROne, 4)
Sum3(a, b, d) == RAdd(a, RAdd(b, d))
Pos(x) == IF x.s < 0 THEN RZero ELSE x
Less(x, y) == RSub(x, y).s < 0

(* ---- the draws ----------------------------------------------------------------*)
(* m distinct unused draws, in some order; in a constant run any draw is the same *)
Free == IF Case.const THEN {1} ELSE (DOMAIN Case.z) \ s.used
Pick(m) == IF Case.const THEN { [i \in 1 .. m |-> 1] }
           ELSE { f \in [1 .. m -> Free] : \A i, j \in 1 .. m : i # j => f[i] # f[j] }
Used(f) == IF Case.const THEN s.used ELSE s.used \cup { f[i] : i \in DOMAIN f }
Z(i) == Case.z[i]

Fresh(v, w, used, usedp, i) ==
    [i |-> i, j |-> 0, pos |-> RZero, nj |-> 0, v |-> v, w |-> w, I |-> RZero, I2 |-> RZero,
     IE |-> RZero, IV |-> RZero, J |-> RZero, np |-> -1, last |-> 0, used |-> used, usedp |-> usedp]

(* what depends on the case only                                                   *)
Consts(x) ==
    LET ekt == TLCEval(RExp(RNeg(RMul(x.par.k1, x.par.h))))
        dt == TLCEval(RDivInt(x.par.h, x.nseg))
        ej == TLCEval([n \in DOMAIN x.path |-> RExp(RMul(x.par.k1, x.path[n].S))])
    IN  [dt |-> dt, sq |-> RSqrt(dt), ekt |-> ekt, ej |-> ej,
         eg |-> [n \in 1 .. x.nseg |-> RExp(RMul(x.par.k1, RMul(RInt(n - 1), dt)))],
         iz |-> FoldSeq(LAMBDA y, a : RAdd(a, y.J), RZero, x.path),
         iez |-> FoldSeq(LAMBDA n, a : RAdd(a, RMul(ej[n], x.path[n].J)), RZero, [n \in DOMAIN x.path |-> n])]
Init == c \in DOMAIN Cases /\ k = Consts(Case) /\ s = Fresh(Case.v0, Case.w0, {}, {}, 0)
Dt == k.dt
Drift(v, kappa, theta, dt) == RMul(RMul(kappa, RSub(theta, v)), dt)

(* ---- one step of the variance and the noises of the return ---------------------*)
StepSV1 ==
    /\ Case.fam = "sv1" /\ s.j < Case.nseg
    /\ LET q == TLCEval(RMul(RSqrt(s.v), k.sq))
           v1 == TLCEval(RAdd(s.v, Drift(s.v, P.k1, P.th1, Dt))) IN
       \E f \in Pick(2) :
         LET e1 == TLCEval(RMul(q, Z(f[1])))  e2 == RMul(q, Z(f[2]))
         IN  s' = [s EXCEPT !.j = @ + 1, !.used = Used(f),
                            !.v = Pos(RAdd(v1, RMul(P.s1, e1))),
                            !.I = RAdd(@, e1), !.I2 = RAdd(@, e2), !.IV = RAdd(@, RMul(s.v, Dt))]
    /\ UNCHANGED <<c, k>>

StepSV2 ==
    /\ Case.fam = "sv2" /\ s.j < Case.nseg
    /\ LET q1 == TLCEval(RMul(RSqrt(s.v), k.sq))
           q2 == TLCEval(RMul(RSqrt(s.w), k.sq))
           q3 == TLCEval(RMul(RSqrt(RAdd(s.v, s.w)), k.sq))
           v1 == TLCEval(RAdd(s.v, Drift(s.v, P.k1, P.th1, Dt)))
           w1 == TLCEval(RAdd(s.w, Drift(s.w, P.k2, P.th2, Dt)))
           iv == TLCEval(RAdd(s.IV, RMul(RAdd(s.v, s.w), Dt))) IN
       \E f \in Pick(3) :
         LET e1 == RMul(q1, Z(f[1]))  e2 == RMul(q2, Z(f[2]))  e3 == RMul(q3, Z(f[3]))
         IN  s' = [s EXCEPT !.j = @ + 1, !.used = Used(f),
                            !.v = Pos(RAdd(v1, RMul(P.s1, e1))), !.w = Pos(RAdd(w1, RMul(P.s2, e2))),
                            !.I = RAdd(@, e3), !.IV = iv]
    /\ UNCHANGED <<c, k>>

(* the grid is refined by the jump times: a step ends at the next jump, or at the  *)
(* end of the segment                                                             *)
GridEnd == RMul(RInt(s.j + 1), Dt)
NextJump == Case.path[s.nj + 1].S
JumpFirst == s.nj < Len(Case.path) /\ ~Less(GridEnd, NextJump)
(* e^{k1 pos}: the position is the last jump or the start of the segment            *)
ExpAt == IF s.nj > 0 /\ s.pos = Case.path[s.nj].S THEN k.ej[s.nj] ELSE k.eg[s.j + 1]
AtJump == s.nj < Len(Case.path) /\ s.pos = NextJump
StepPath ==
    /\ Case.fam = "path" /\ s.j < Case.nseg /\ ~AtJump
    /\ LET to == IF JumpFirst THEN NextJump ELSE GridEnd
           dt == RSub(to, s.pos)
           j2 == IF JumpFirst THEN s.j ELSE s.j + 1
           q == TLCEval(RMul(RSqrt(s.v), RSqrt(dt)))
           v1 == TLCEval(RAdd(s.v, Drift(s.v, P.k1, P.th1, dt)))
       IN  IF dt.s = 0 THEN s' = [s EXCEPT !.j = j2]
           ELSE \E f \in Pick(2) :
                LET e1 == TLCEval(RMul(q, Z(f[1])))  e2 == RMul(q, Z(f[2]))
                IN  s' = [s EXCEPT !.j = j2, !.pos = to, !.used = Used(f),
                            !.v = Pos(RAdd(v1, RMul(P.s1, e1))),
                            !.I = RAdd(@, e1), !.I2 = RAdd(@, e2),
                            !.IE = RAdd(@, RMul(ExpAt, e1))]
    /\ UNCHANGED <<c, k>>
JumpV ==
    /\ Case.fam \in {"path", "srd"} /\ AtJump /\ (Case.fam = "path" => s.j < Case.nseg)
    /\ s' = [s EXCEPT !.nj = @ + 1, !.v = RAdd(@, Case.path[s.nj + 1].J)]
    /\ UNCHANGED <<c, k>>

(* exact transition of the square-root diffusion: c * noncentral chi-square, whose  *)
(* i-th draw is a_i * degrees of freedom + b_i * noncentrality                      *)
SrdTo == IF s.nj < Len(Case.path) THEN NextJump ELSE P.h
StepSRD ==
    /\ Case.fam = "srd" /\ ~AtJump /\ Less(s.pos, SrdTo)
    /\ \E f \in Pick(1) :
         LET dt == RSub(SrdTo, s.pos)
             ek == RExp(RNeg(RMul(P.k1, dt)))
             s2 == RMul(P.s1, P.s1)
             lead == TLCEval(RDiv(RMul(s2, RSub(ROne, ek)), RMul(RInt(4), P.k1)))
             df == RDiv(RMul(RInt(4), RMul(P.th1, P.k1)), s2)
             nc == RDiv(RMul(s.v, ek), lead)
         IN  s' = [s EXCEPT !.pos = SrdTo, !.used = Used(f),
                            !.v = RMul(lead, RAdd(RMul(Z(f[1]), df), RMul(Case.z2[f[1]], nc)))]
    /\ UNCHANGED <<c, k>>

Diffused == IF Case.fam = "srd" THEN s.nj = Len(Case.path) /\ ~Less(s.pos, P.h)
            ELSE s.j = Case.nseg
(* ---- jumps of the price ----------------------------------------------------------*)
(* number of price jumps in this interval                                            *)
Count ==
    /\ Diffused /\ s.np = -1
    /\ CASE Case.jumps = "none" -> s' = [s EXCEPT !.np = 0]
         [] Case.jumps = "same" -> s' = [s EXCEPT !.np = Len(Case.path)]
         [] Case.jumps = "poisson" ->
              IF Case.const THEN s' = [s EXCEPT !.np = Case.p[1]]
              ELSE \E i \in (DOMAIN Case.p) \ s.usedp :
                     s' = [s EXCEPT !.np = Case.p[i], !.usedp = @ \cup {i}]
    /\ UNCHANGED <<c, k>>
JumpMean(n) == IF Case.jumps = "same" THEN RAdd(P.mus, RMul(P.rhoJ, Case.path[n].J)) ELSE P.mus
PriceJump ==
    /\ s.np > 0
    /\ \E f \in Pick(1) :
         /\ Case.const \/ f[1] > s.last           \* the sum does not depend on the order
         /\ s' = [s EXCEPT !.np = @ - 1, !.used = Used(f), !.last = f[1],
                        !.J = RAdd(@, RAdd(JumpMean(s.np), RMul(P.sgs, Z(f[1]))))]
    /\ UNCHANGED <<c, k>>
(* the sum of independent normals drawn at once                                       *)
AllJumps ==
    /\ s.np > 1 /\ s.J = RZero
    /\ \E f \in Pick(1) :
         s' = [s EXCEPT !.np = 0, !.used = Used(f),
                 !.J = RAdd(FoldSeq(LAMBDA n, a : RAdd(a, JumpMean(n)), RZero, [n \in 1 .. s.np |-> n]),
                            RMul(RMul(P.sgs, RSqrt(RInt(s.np))), Z(f[1])))]
    /\ UNCHANGED <<c, k>>

(* ---- the value of the interval ------------------------------------------------------*)
Ret1 == RAdd(RSub(RMul(P.mu, P.h), RMul(Half, s.IV)),
             Sum3(RMul(P.rho, s.I), RMul(P.srho, s.I2), s.J))
Ret2 == Sum3(RSub(RMul(P.mu, P.h), RMul(Half, s.IV)), s.I, s.J)
(* the integrated variance expressed by the noises: exact in the jumps                 *)
EkT == k.ekt
IZ == k.iz
IEZ == k.iez
IntV == LET beta == RDiv(RSub(ROne, EkT), P.k1)
        IN  Sum3(RMul(P.th1, P.h), RMul(RSub(Case.v0, P.th1), beta),
                 RDiv(RAdd(RMul(P.s1, RSub(s.I, RMul(EkT, s.IE))), RSub(IZ, RMul(EkT, IEZ))), P.k1))
RetP == RAdd(RSub(RMul(P.mu, P.h), RMul(Half, IntV)),
             Sum3(RMul(P.rho, s.I), RMul(P.srho, s.I2), s.J))
Value == CASE Case.fam = "sv1" -> Ret1 [] Case.fam = "sv2" -> Ret2
           [] Case.fam = "path" -> RetP [] Case.fam = "srd" -> s.v
Emit ==
    /\ Diffused /\ s.np = 0 /\ s.i < Case.n /\ Len(Case.y) = Case.n
    /\ LET val == TLCEval(Value) IN RClose(val, Case.y[s.i + 1], RAdd(ROne, RAbs(val)), 2)
    /\ s' = IF Case.iid THEN Fresh(Case.v0, Case.w0, s.used, s.usedp, s.i + 1)
            ELSE Fresh(s.v, s.w, s.used, s.usedp, s.i + 1)
    /\ UNCHANGED <<c, k>>

Next == StepSV1 \/ StepSV2 \/ StepPath \/ JumpV \/ StepSRD \/ Count \/ PriceJump \/ AllJumps \/ Emit
Spec == Init /\ [][Next]_vars

(* ---- what must hold of the machine itself --------------------------------------------*)
VarianceNonNegative == s.v.s >= 0 /\ s.w.s >= 0
JumpsInOrder == s.nj <= Len(Case.path)
                /\ (Diffused /\ Case.fam \in {"path", "srd"} => s.nj = Len(Case.path))
(* every intensity the simulator asked for is the expected number of jumps               *)
Rates == \A i \in DOMAIN Case.rates : RClose(Case.rates[i], RMul(P.lam, P.h), ROne, 2)

(* ---- verdict ---------------------------------------------------------------------------*)
ASSUME TLCSet(1, {})
Finished == s.i = Case.n /\ Rates
Unsolved == /\ (Finished => TLCSet(1, TLCGet(1) \cup {c}))
            /\ c \notin TLCGet(1)
Report == LET solved == TLCGet(1)
              bad == SetToSeq((DOMAIN Cases) \ solved)
          IN  PrintT("VERDICT " \o ToJson([ok |-> Cardinality(solved), lines |-> Len(Cases),
                 bad |-> [i \in DOMAIN bad |-> <<Cases[bad[i]].id, "a run of the discretised model",
                                                ToString(Cases[bad[i]].y)>>]]))
============================================================================
