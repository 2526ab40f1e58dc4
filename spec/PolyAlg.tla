------------------------------ MODULE PolyAlg ------------------------------
(***************************************************************************)
(* The algebra of exact sparse polynomials, as a register machine.          *)
(*                                                                         *)
(* A polynomial is a finite map from exponent tuples to rationals together  *)
(* with the tuple of names its exponents belong to.  Registers refer to     *)
(* objects (so that two registers can be aliases); every operation returns   *)
(* a fresh object, except merge / add_keyval / remove_zero / set_keyfor,     *)
(* which change one object in place.  Behaviours of this machine are          *)
(* generated by TLC and replayed on the implementation, which must agree on  *)
(* every register after every step.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json, Randomization

CONSTANTS NReg,      \* number of registers
          Depth,     \* length of a behaviour
          Kinds      \* which operations occur

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b

(* ---- rationals: <<num, den>>, den > 0, reduced --------------------------*)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
             IN  IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RAdd(x, y) == Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RMul(x, y) == Rat(x[1] * y[1], x[2] * y[2])
RNeg(x) == <<-x[1], x[2]>>
(* integer division truncates downwards: fix the sign before dividing        *)
ASSUME Rat(-2, 4) = <<-1, 2>> /\ Rat(3, -6) = <<-1, 2>> /\ Rat(0, -5) = <<0, 1>>

(* ---- names ---------------------------------------------------------------*)
KF == << <<"e", "h">>, <<"e", "k">>, <<"h", "e">>, <<"e", "h", "k">>, <<"e">> >>
NKF == Len(KF)

(* ---- polynomials: [kf, m] -------------------------------------------------*)
NoTerms == [x \in {} |-> <<0, 1>>]
Clean(m) == LET S == { k \in DOMAIN m : m[k][1] # 0 } IN [k \in S |-> m[k]]
At(m, k) == IF k \in DOMAIN m THEN m[k] ELSE <<0, 1>>
Bump(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN RAdd(At(m, k), v) ELSE m[x]]

PAdd(m1, m2) == Clean([k \in DOMAIN m1 \cup DOMAIN m2 |-> RAdd(At(m1, k), At(m2, k))])
PScale(c, m) == Clean([k \in DOMAIN m |-> RMul(c, m[k])])
PNeg(m) == PScale(<<-1, 1>>, m)
KAdd(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Spread(m1, m2, K(_, _)) ==         \* sum of all pairwise products, keys by K
    Clean(FoldSet(LAMBDA p, acc : Bump(acc, K(p[1], p[2]), RMul(m1[p[1]], m2[p[2]])),
                  NoTerms, (DOMAIN m1) \X (DOMAIN m2)))
PMul(m1, m2) == Spread(m1, m2, KAdd)
RECURSIVE PPow(_, _)
PPow(m, n) == IF n = 1 THEN m ELSE PMul(PPow(m, n - 1), m)
(* structured product: component i of the new key is k1[ix1[i]] + k2[ix2[i]]; *)
(* an index outside the key contributes 0 (indices count from 0)              *)
Pick(k, i) == IF i >= 0 /\ i < Len(k) THEN k[i + 1] ELSE 0
PMulX(m1, m2, ix1, ix2) ==
    Spread(m1, m2, LAMBDA a, b : [i \in DOMAIN ix1 |-> Pick(a, ix1[i]) + Pick(b, ix2[i])])

(* ---- laws the specification itself satisfies (checked exhaustively) -------*)
SmallKeys == { <<0>>, <<1>>, <<-1>> }
SmallMaps == { Clean([k \in SmallKeys |-> <<f[k], 1>>]) : f \in [SmallKeys -> -1 .. 1] }
LawsHold ==
    \A p, q \in SmallMaps :
        /\ PAdd(p, q) = PAdd(q, p) /\ PMul(p, q) = PMul(q, p)
        /\ PAdd(PAdd(p, q), PNeg(q)) = p
        /\ PPow(p, 3) = PMul(p, PMul(p, p))
        /\ \A r \in {NoTerms, (<<1>> :> <<1, 1>>), (<<0>> :> <<2, 1>> @@ <<-1>> :> <<-1, 2>>)} :
             /\ PMul(p, PAdd(q, r)) = PAdd(PMul(p, q), PMul(p, r))
             /\ PMul(PMul(p, q), r) = PMul(p, PMul(q, r))

(* ---- the machine -----------------------------------------------------------*)
VARIABLES reg, obj, hist
vars == <<reg, obj, hist>>
Regs == 1 .. NReg

Terms(p) == [kf |-> KF[p.kf],
             t |-> SetToSeq({ <<k, p.m[k][1], p.m[k][2]>> : k \in DOMAIN p.m })]
Shot(r, o) == [i \in Regs |-> Terms(o[r[i]])]

Vals == { <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<-3, 2>>, <<1, 3>>, <<5, 4>> }
KeysOf(kf) == [1 .. Len(KF[kf]) -> -1 .. 2]
RandMap(kf, n) == LET S == RandomSubset(n, KeysOf(kf))
                  IN  [k \in S |-> RandomElement(Vals)]

Small(p, nt, c) == /\ Cardinality(DOMAIN p.m) <= nt
                   /\ \A k \in DOMAIN p.m : Abs(p.m[k][1]) <= c /\ p.m[k][2] <= c
                   /\ \A k \in DOMAIN p.m : \A i \in DOMAIN k : Abs(k[i]) <= 12
IsClean(p) == \A k \in DOMAIN p.m : p.m[k][1] # 0

Log(rec, r, o) == hist' = Append(hist, [op |-> rec, after |-> Shot(r, o)])
(* a fresh object in register d *)
Fresh(rec, d, p) ==
    LET r == [reg EXCEPT ![d] = Len(obj) + 1]  o == Append(obj, p)
    IN  reg' = r /\ obj' = o /\ Log(rec, r, o)
InPlace(rec, i, p) ==
    LET o == [obj EXCEPT ![i] = p] IN reg' = reg /\ obj' = o /\ Log(rec, reg, o)
Refuse(rec) == UNCHANGED <<reg, obj>> /\ Log(rec, reg, obj)

P(r) == obj[reg[r]]
AReg(x) == {RandomElement(Regs)}     \* x keeps TLC from evaluating it once and for all
Base == [o |-> "", d |-> 0, a |-> 0, b |-> 0, n |-> 0, v |-> <<0, 1>>, k |-> << >>,
         ix |-> << << >>, << >> >>, kf |-> << >>, raises |-> FALSE, ans |-> FALSE]
Err == "NotImplementedError"

New == \E d \in AReg(hist), kf \in {RandomElement({1, 1, 1, 2, 3, 4, 5})} :
       \E m \in {RandMap(kf, RandomElement(0 .. 3))} :
          Fresh([Base EXCEPT !.o = "new", !.d = d, !.kf = KF[kf]], d, [kf |-> kf, m |-> m])
Alias == \E d \in AReg(hist), a \in AReg(hist) : d # a /\
         LET r == [reg EXCEPT ![d] = reg[a]]
         IN  reg' = r /\ UNCHANGED obj /\ Log([Base EXCEPT !.o = "alias", !.d = d, !.a = a], r, obj)
CopyOp == \E d \in AReg(hist), a \in AReg(hist) :
          Fresh([Base EXCEPT !.o = "copy", !.d = d, !.a = a], d, P(a))

Bin(o, F(_, _), nt, c) ==
    \E d \in AReg(hist), a \in AReg(hist), b \in AReg(hist) :
        LET rec == [Base EXCEPT !.o = o, !.d = d, !.a = a, !.b = b]
        IN  /\ Small(P(a), nt, c) /\ Small(P(b), nt, c)
            /\ IF P(a).kf = P(b).kf
               THEN Fresh(rec, d, [kf |-> P(a).kf, m |-> F(P(a).m, P(b).m)])
               ELSE Refuse([rec EXCEPT !.raises = TRUE])
AddOp == Bin("add", PAdd, 40, 1000)
SubOp == Bin("sub", LAMBDA x, y : PAdd(x, PNeg(y)), 40, 1000)
MulOp == Bin("mul", PMul, 6, 40)

RmulOp == \E d \in AReg(hist), a \in AReg(hist), c \in {RandomElement(Vals \cup {<<0, 1>>})} :
          Small(P(a), 40, 500)
          /\ Fresh([Base EXCEPT !.o = "rmul", !.d = d, !.a = a, !.v = c], d,
                   [kf |-> P(a).kf, m |-> PScale(c, P(a).m)])
PowOp == \E d \in AReg(hist), a \in AReg(hist), n \in {RandomElement(-1 .. 3)} :
         LET rec == [Base EXCEPT !.o = "pow", !.d = d, !.a = a, !.n = n]
         IN  /\ Small(P(a), 4, 12) /\ IsClean(P(a))
             /\ IF n <= 0 THEN Refuse([rec EXCEPT !.raises = TRUE])
                ELSE Fresh(rec, d, [kf |-> P(a).kf, m |-> PPow(P(a).m, n)])
MergeOp == \E a \in AReg(hist), b \in AReg(hist) :
           LET rec == [Base EXCEPT !.o = "merge", !.a = a, !.b = b]
           IN  /\ Small(P(a), 40, 1000) /\ Small(P(b), 40, 1000)
               /\ IF P(a).kf = P(b).kf
                  THEN InPlace(rec, reg[a], [P(a) EXCEPT !.m = PAdd(P(a).m, P(b).m)])
                  ELSE Refuse([rec EXCEPT !.raises = TRUE])
AddKv == \E a \in AReg(hist) : \E k \in {RandomElement(KeysOf(P(a).kf) \cup DOMAIN P(a).m)},
                           v \in {RandomElement(Vals)} :
         \E w \in {RandomElement({v, RNeg(At(P(a).m, k))})} :
         Small(P(a), 40, 500)
         /\ InPlace([Base EXCEPT !.o = "addkv", !.a = a, !.k = k, !.v = w], reg[a],
                    [P(a) EXCEPT !.m = Bump(P(a).m, k, w)])
RemZero == \E a \in AReg(hist) :
           InPlace([Base EXCEPT !.o = "remzero", !.a = a], reg[a], [P(a) EXCEPT !.m = Clean(P(a).m)])
SetKf == \E a \in AReg(hist), kf \in {RandomElement(1 .. NKF)} :
         Len(KF[kf]) = Len(KF[P(a).kf])
         /\ InPlace([Base EXCEPT !.o = "setkf", !.a = a, !.kf = KF[kf]], reg[a], [P(a) EXCEPT !.kf = kf])
SameType == \E a \in AReg(hist), b \in AReg(hist) :
            Refuse([Base EXCEPT !.o = "sametype", !.a = a, !.b = b, !.ans = (P(a).kf = P(b).kf)])
(* an operand that is no polynomial at all *)
Alien == \E a \in AReg(hist), n \in {RandomElement(1 .. 4)} :
         Refuse([Base EXCEPT !.o = "alien", !.a = a, !.n = n, !.raises = TRUE])
MulX == \E d \in AReg(hist), a \in AReg(hist), b \in AReg(hist), kf \in {RandomElement(1 .. NKF)} :
        \E ix1 \in {[i \in 1 .. Len(KF[kf]) |-> RandomElement(-1 .. 3)]},
           ix2 \in {[i \in 1 .. Len(KF[kf]) |-> RandomElement(-1 .. 3)]} :
        /\ Small(P(a), 6, 40) /\ Small(P(b), 6, 40)
        /\ Fresh([Base EXCEPT !.o = "mulx", !.d = d, !.a = a, !.b = b, !.ix = <<ix1, ix2>>,
                              !.kf = KF[kf]], d,
                 [kf |-> kf, m |-> PMulX(P(a).m, P(b).m, ix1, ix2)])

Init == /\ reg = [i \in Regs |-> i]
        /\ obj = [i \in Regs |-> [kf |-> 1, m |-> NoTerms]]
        /\ hist = << >>
(* a behaviour starts by filling every register, then anything may happen     *)
Fill == \E kf \in {RandomElement({1, 1, 1, 1, 2, 3, 4, 5})}, d \in {Len(hist) + 1} :
        \E m \in {RandMap(kf, RandomElement(0 .. 4))} :
           Fresh([Base EXCEPT !.o = "new", !.d = d, !.kf = KF[kf]], d, [kf |-> kf, m |-> m])
Next == IF Len(hist) < NReg THEN Fill ELSE Len(hist) < Depth /\
        \/ New
        \/ "ring" \in Kinds /\ (AddOp \/ SubOp \/ MulOp \/ RmulOp \/ PowOp \/ MergeOp)
        \/ "place" \in Kinds /\ (Alias \/ CopyOp \/ AddKv \/ RemZero)
        \/ "type" \in Kinds /\ (AddOp \/ MulOp \/ MergeOp \/ SameType \/ SetKf \/ Alien)
        \/ "mulx" \in Kinds /\ MulX
Spec == Init /\ [][Next]_vars

(* every stored polynomial keeps reduced coefficients and keys of its length  *)
WellFormed == \A i \in DOMAIN obj : \A k \in DOMAIN obj[i].m :
                 /\ Len(k) = Len(KF[obj[i].kf])
                 /\ obj[i].m[k] = Rat(obj[i].m[k][1], obj[i].m[k][2])
Emit == Len(hist) = Depth => PrintT("BEHAVIOUR " \o ToJson(hist))
============================================================================
