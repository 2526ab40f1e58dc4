-------------------------------- MODULE Fp --------------------------------
(***************************************************************************)
(* Arithmetic in the prime field GF(P).  P < 46341, so that a product of   *)
(* two residues plus a residue fits TLC's 32-bit integers.                  *)
(* A rational identity between polynomials in algebraically independent     *)
(* symbols is decided by evaluating both sides at random points of GF(P)    *)
(* (Schwartz-Zippel); see DESIGN.md for the error bound.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

P == 46337

Md(a) == a % P
Add(a, b) == (a + b) % P
Sub(a, b) == (a - b) % P
Mul(a, b) == (a * b) % P
Neg(a) == (-a) % P

RECURSIVE PowN(_, _)
PowN(a, n) ==              \* n >= 0
    IF n = 0 THEN 1
    ELSE IF n = 1 THEN a % P
    ELSE LET h == PowN(a, n \div 2)
         IN  IF n % 2 = 0 THEN Mul(h, h) ELSE Mul(Mul(h, h), a)

Inv(a) == PowN(a, P - 2)
Pow(a, n) == IF n >= 0 THEN PowN(a, n) ELSE PowN(Inv(a), -n)
Frac(n, d) == Mul(n % P, Inv(d % P))

SumSeq(s) == FoldSeq(LAMBDA x, acc : (x + acc) % P, 0, s)
SumInt(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
ProdSeq(s) == FoldSeq(LAMBDA x, acc : (x * acc) % P, 1, s)
SumOver(S, F(_)) == FoldSet(LAMBDA x, acc : (F(x) + acc) % P, 0, S)

RECURSIVE FactP(_)
FactP(n) == IF n <= 0 THEN 1 ELSE Mul(n, FactP(n - 1))

RECURSIVE FallP(_, _)      \* falling factorial a (a-1) ... (a-d+1)
FallP(a, d) == IF d = 0 THEN 1 ELSE Mul(a, FallP(a - 1, d - 1))

CombP(n, i) == IF i < 0 \/ i > n THEN 0 ELSE Mul(FallP(n, i), Inv(FactP(i)))
============================================================================
