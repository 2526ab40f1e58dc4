------------------------------- MODULE QPoly -------------------------------
(***************************************************************************)
(* Quasi-polynomials in time over GF(P):                                    *)
(*      sum  c * exp((n1 k1 + n2 k2) t) * t^m                               *)
(* represented as a function  <<n1, n2, m>> -> c  (only non-zero c).        *)
(* k1, k2 are formal rates; their residues are arguments where needed.      *)
(***************************************************************************)
EXTENDS Fp

QZero == [x \in {} |-> 0]
QConst(c) == IF c % P = 0 THEN QZero ELSE [x \in {<<0, 0, 0>>} |-> c % P]
QGet(q, x) == IF x \in DOMAIN q THEN q[x] ELSE 0
QNorm(f) == LET nz == {x \in DOMAIN f : f[x] # 0}
            IN  IF nz = DOMAIN f THEN f ELSE [x \in nz |-> f[x]]

(* sum of pieces; a piece is [c, s, q]: c * exp((s1 k1 + s2 k2) t) * q       *)
QLin(pieces) ==
    LET dom == UNION { { <<x[1] + pieces[i].s[1], x[2] + pieces[i].s[2], x[3]>> :
                             x \in DOMAIN pieces[i].q } : i \in DOMAIN pieces }
        val(x) == FoldSeq(LAMBDA p, acc :
                      (p.c * QGet(p.q, <<x[1] - p.s[1], x[2] - p.s[2], x[3]>>) + acc) % P,
                      0, pieces)
    IN  QNorm(TLCEval([x \in dom |-> val(x)]))

(* antiderivative  int_0^t g(s) ds *)
QInt(g, k1, k2) ==
    LET rate(x) == (x[1] * k1 + x[2] * k2) % P
        reso(x) == x[1] = 0 /\ x[2] = 0
        expK == { <<x[1], x[2]>> : x \in {y \in DOMAIN g : ~reso(y)} }
        \* coefficient of t^j exp(n.k t) in the antiderivative
        Ms(e) == { x[3] : x \in {y \in DOMAIN g : y[1] = e[1] /\ y[2] = e[2]} }
        up(e, j) == LET ir == Inv((e[1] * k1 + e[2] * k2) % P)
                        ms == { m \in Ms(e) : m >= j }
                    IN  SumOver(ms, LAMBDA m :
                          Mul(Mul(g[<<e[1], e[2], m>>], FallP(m, m - j)),
                              Mul(PowN(ir, m - j + 1), IF (m - j) % 2 = 0 THEN 1 ELSE P - 1)))
        dom1 == UNION { { <<e[1], e[2], j>> : j \in 0 .. Max(Ms(e)) } : e \in expK }
        part1 == TLCEval([x \in dom1 |-> up(<<x[1], x[2]>>, x[3])])
        c0 == Neg(SumOver({x \in dom1 : x[3] = 0}, LAMBDA x : part1[x]))
        part2 == [x \in { <<0, 0, y[3] + 1>> : y \in {z \in DOMAIN g : reso(z)} }
                    |-> Mul(g[<<0, 0, x[3] - 1>>], Inv(x[3]))]
    IN  QNorm(TLCEval(QConst(c0) @@ part2 @@ part1))

(* value at exp(k1 t) = E1, exp(k2 t) = E2, t = T *)
QEval(q, E1, E2, T) ==
    SumOver(DOMAIN q, LAMBDA x : Mul(q[x], Mul(Mul(Pow(E1, x[1]), Pow(E2, x[2])), PowN(T, x[3]))))

(* formal time derivative *)
QDiff(q, k1, k2) ==
    LET dom == DOMAIN q \cup { <<x[1], x[2], x[3] - 1>> : x \in {y \in DOMAIN q : y[3] > 0} }
    IN  QNorm(TLCEval([x \in dom |->
           (QGet(q, x) * ((x[1] * k1 + x[2] * k2) % P)
            + Mul(x[3] + 1, QGet(q, <<x[1], x[2], x[3] + 1>>))) % P]))
============================================================================
