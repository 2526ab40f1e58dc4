-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Real numbers as floating multi-limb numbers, N = 5 limbs in base 10^4     *)
(* (17 to 20 significant digits): x = s * sum_i m[i] B^(e - i), with          *)
(* m[1] # 0 unless s = 0.  Every product of two limbs and every sum of five   *)
(* such products fits TLC's 32-bit integers.                                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

B == 10000
RZero == [s |-> 0, e |-> 0, m |-> <<0, 0, 0, 0, 0>>]
ROne == [s |-> 1, e |-> 1, m |-> <<1, 0, 0, 0, 0>>]

RAbs(x) == IF x.s = 0 THEN x ELSE [x EXCEPT !.s = 1]
RNeg(x) == [x EXCEPT !.s = -x.s]

RInt(n) ==
    LET a == IF n < 0 THEN -n ELSE n  s == IF n < 0 THEN -1 ELSE 1
    IN  IF n = 0 THEN RZero
        ELSE IF a < B THEN [s |-> s, e |-> 1, m |-> <<a, 0, 0, 0, 0>>]
        ELSE IF a < B * B THEN [s |-> s, e |-> 2, m |-> <<a \div B, a % B, 0, 0, 0>>]
        ELSE [s |-> s, e |-> 3, m |-> <<a \div (B * B), (a \div B) % B, a % B, 0, 0>>]

(* carry propagation from the least significant position upwards              *)
RMul(x, y) ==
    IF x.s = 0 \/ y.s = 0 THEN RZero
    ELSE LET a == x.m  b == y.m
             c6 == a[2] * b[5] + a[3] * b[4] + a[4] * b[3] + a[5] * b[2]
             c5 == a[1] * b[5] + a[2] * b[4] + a[3] * b[3] + a[4] * b[2] + a[5] * b[1] + c6 \div B
             c4 == a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1] + c5 \div B
             c3 == a[1] * b[3] + a[2] * b[2] + a[3] * b[1] + c4 \div B
             c2 == a[1] * b[2] + a[2] * b[1] + c3 \div B
             c1 == a[1] * b[1] + c2 \div B
             h == c1 \div B
         IN  IF h > 0
             THEN [s |-> x.s * y.s, e |-> x.e + y.e,
                   m |-> <<h, c1 % B, c2 % B, c3 % B, c4 % B>>]
             ELSE [s |-> x.s * y.s, e |-> x.e + y.e - 1,
                   m |-> <<c1 % B, c2 % B, c3 % B, c4 % B, c5 % B>>]

Limb(m, i) == IF i >= 1 /\ i <= 5 THEN m[i] ELSE 0
(* remove leading zero limbs *)
RECURSIVE RNorm(_, _, _)
RNorm(s, e, m) == IF m = <<0, 0, 0, 0, 0>> THEN RZero
                  ELSE IF m[1] # 0 THEN [s |-> s, e |-> e, m |-> m]
                  ELSE RNorm(s, e - 1, <<m[2], m[3], m[4], m[5], 0>>)
(* is |x| < |y| ? *)
RLessMag(x, y) ==
    IF x.s = 0 THEN y.s # 0
    ELSE IF y.s = 0 THEN FALSE
    ELSE IF x.e # y.e THEN x.e < y.e
    ELSE \E i \in 1 .. 5 : x.m[i] < y.m[i] /\ \A j \in 1 .. (i - 1) : x.m[j] = y.m[j]

RAdd0(x, y) ==          \* |x| >= |y|, both non-zero
    LET d == x.e - y.e
    IN  IF d > 5 THEN x
        ELSE LET b == <<Limb(y.m, 1 - d), Limb(y.m, 2 - d), Limb(y.m, 3 - d), Limb(y.m, 4 - d),
                        Limb(y.m, 5 - d)>>
                 k == x.s * y.s
                 t5 == x.m[5] + k * b[5]
                 t4 == x.m[4] + k * b[4] + t5 \div B          \* \div rounds down: also a borrow
                 t3 == x.m[3] + k * b[3] + t4 \div B
                 t2 == x.m[2] + k * b[2] + t3 \div B
                 t1 == x.m[1] + k * b[1] + t2 \div B
             IN  IF t1 >= B
                 THEN [s |-> x.s, e |-> x.e + 1, m |-> <<1, t1 - B, t2 % B, t3 % B, t4 % B>>]
                 ELSE RNorm(x.s, x.e, <<t1, t2 % B, t3 % B, t4 % B, t5 % B>>)
RAdd(x, y) == IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
              ELSE IF RLessMag(x, y) THEN RAdd0(y, x) ELSE RAdd0(x, y)
RSub(x, y) == RAdd(x, RNeg(y))

(* inverse: Newton's iteration from a two-limb first guess                     *)
RECURSIVE Newton(_, _, _)
Newton(x, r, n) == IF n = 0 THEN r
                   ELSE Newton(x, TLCEval(RMul(r, RSub(RInt(2), RMul(x, r)))), n - 1)
RInv(x) ==
    LET top == IF x.m[1] >= 10 THEN x.m[1] * B + x.m[2]
               ELSE x.m[1] * B + x.m[2]                       \* at least B, below B^2
        q == (B * B * 10) \div top                            \* 10 B^2 / top, at least 10
        g == RInt(q)                                          \* 1/x ~ q / (10 B^2) * B^(2-e)
        ten == [s |-> 1, e |-> 0, m |-> <<1000, 0, 0, 0, 0>>] \* 1/10
        r0 == RMul(ten, [g EXCEPT !.e = @ - x.e, !.s = x.s])
    IN  Newton(x, r0, 5)
RDiv(x, y) == RMul(x, RInv(y))

(* division by a small integer, 0 < n < B: long division                        *)
RDivInt(x, n) ==
    IF x.s = 0 THEN x
    ELSE LET t2 == (x.m[1] % n) * B + x.m[2]
             t3 == (t2 % n) * B + x.m[3]
             t4 == (t3 % n) * B + x.m[4]
             t5 == (t4 % n) * B + x.m[5]
             q1 == x.m[1] \div n
         IN  IF q1 > 0 THEN [x EXCEPT !.m = <<q1, t2 \div n, t3 \div n, t4 \div n, t5 \div n>>]
             ELSE [s |-> x.s, e |-> x.e - 1, m |-> <<t2 \div n, t3 \div n, t4 \div n, t5 \div n,
                                                    ((t5 % n) * B) \div n>>]

RECURSIVE RPowN(_, _)
RPowN(x, n) == IF n = 0 THEN ROne ELSE IF n = 1 THEN x
               ELSE LET h == TLCEval(RPowN(x, n \div 2))
                    IN  IF n % 2 = 0 THEN RMul(h, h) ELSE RMul(RMul(h, h), x)
RPow(x, n) == IF n >= 0 THEN RPowN(x, n) ELSE RInv(RPowN(x, -n))

(* e^x: Taylor's series at |x| / 16, squared four times, once more for each
   halving that brings |x| below 8                                            *)
RECURSIVE RTaylor(_, _, _, _)
RTaylor(x, n, term, acc) ==
    IF n > 24 THEN acc
    ELSE LET t == TLCEval(RDivInt(RMul(term, x), n)) IN RTaylor(x, n + 1, t, TLCEval(RAdd(acc, t)))
RECURSIVE RExp(_)
RExp(x) == IF x.s = 0 THEN ROne
           ELSE IF x.e > 1 \/ (x.e = 1 /\ x.m[1] >= 8)
           THEN LET v == TLCEval(RExp(RMul(x, [s |-> 1, e |-> 0, m |-> <<5000, 0, 0, 0, 0>>]))) IN RMul(v, v)
           ELSE IF x.e <= 0                                  \* no digits lost: 1 - e^x matters
           THEN LET v == RTaylor(RAbs(x), 1, ROne, ROne) IN IF x.s > 0 THEN v ELSE RInv(v)
           ELSE LET y == RMul(RAbs(x), [s |-> 1, e |-> 0, m |-> <<625, 0, 0, 0, 0>>])
                    v == RPowN(RTaylor(y, 1, ROne, ROne), 16)
                IN  IF x.s > 0 THEN v ELSE RInv(v)

(* |x - y| <= 10^-(4 d) * scale *)
RClose(x, y, scale, d) == ~RLessMag([RAbs(scale) EXCEPT !.e = @ - d], RSub(x, y))

(* the arithmetic agrees with itself where the results are known exactly       *)
ASSUME RMul(RInt(12345678), RInt(-8765)) = RMul(RInt(-8765), RInt(12345678))
ASSUME RSub(RMul(RInt(99999999), RInt(99999999)), RInt(1)) =
       RMul(RInt(99999998), RInt(100000000))
ASSUME RAdd(RInt(99999999), RInt(1)) = RInt(100000000)
ASSUME RSub(RInt(100000000), RInt(99999999)) = ROne
ASSUME RClose(RMul(RInt(7), RInv(RInt(7))), ROne, ROne, 3)
ASSUME RClose(RMul(RInt(99990001), RInv(RInt(99990001))), ROne, ROne, 3)
ASSUME \A n \in {1, 3, 7, 24, 9999} : RClose(RDivInt(RInt(12345678), n), RMul(RInt(12345678), RInv(RInt(n))),
                                              RInt(12345678), 3)
ASSUME RClose(RMul(RExp(RInt(2)), RExp(RInt(-2))), ROne, ROne, 3)
ASSUME RClose(RExp(ROne), [s |-> 1, e |-> 1, m |-> <<2, 7182, 8182, 8459, 452>>], ROne, 3)
ASSUME RClose(RExp(RInt(3)), RPowN(RExp(ROne), 3), RInt(20), 3)
ASSUME RClose(RExp(RInt(-700)), RPowN(RExp(RInt(-7)), 100), RExp(RInt(-700)), 3)
============================================================================
