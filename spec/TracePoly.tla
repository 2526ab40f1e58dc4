------------------------------ MODULE TracePoly ------------------------------
(***************************************************************************)
(* Judges what the library did with formulas: derivatives, rewritings, time  *)
(* integrals.  A trace line carries the formulas as the library produced     *)
(* them; their values are computed here, from the meaning of the names, at   *)
(* the line's point of GF(P).                                                *)
(***************************************************************************)
EXTENDS QPoly, Json, IOUtils

F == INSTANCE Formula WITH FAdd <- Add, FMul <- Mul, FPow <- Pow, FInt <- Md

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, env, bad, nok
vars == <<l, env, bad, nok>>

V(p) == F!Value(env, p.kf, p.t)
SumV(ps) == SumSeq([i \in DOMAIN ps |-> V(ps[i])])

(* int_a^t e^{(n1 k1 + n2 k2) u} u^m du  with e^{k a} = es, a = s              *)
Integral(n1, n2, m) ==
    LET q == QInt([x \in {<<n1, n2, m>>} |-> 1], env.k1, env.k2)
    IN  Sub(QEval(q, env.e1, env.e2, env.t), QEval(q, env.es1, env.es2, env.s))
(* the specification's own antiderivative is one                              *)
IntegralOK(n1, n2, m) ==
    LET g == [x \in {<<n1, n2, m>>} |-> 1]
    IN  QDiff(QInt(g, env.k1, env.k2), env.k1, env.k2) = g

(* ---- the ring of polynomials, on operands of any size: evaluation is a      *)
(* homomorphism.  e.p, e.q: the operands before; e.same: they (and whatever     *)
(* else is not meant to change) are as before; e.zeros: terms with coefficient  *)
(* zero in the result                                                          *)
Moved(p, ix) ==              \* exponents moved to the names of a structured product
    [i \in DOMAIN p.t |-> <<p.t[i][1],
        [j \in DOMAIN ix |-> IF ix[j] >= 0 /\ ix[j] < Len(p.kf) THEN p.t[i][2][ix[j] + 1] ELSE 0]>>]
RingValue(e) ==
    CASE e.f = "add" -> Add(V(e.p), V(e.q))
      [] e.f = "sub" -> Sub(V(e.p), V(e.q))
      [] e.f = "mul" -> Mul(V(e.p), V(e.q))
      [] e.f = "rmul" -> Mul(e.c, V(e.p))
      [] e.f = "pow" -> PowN(V(e.p), e.n)
      [] e.f = "mulx" -> Mul(F!Value(env, e.kf, Moved(e.p, e.ix[1])), F!Value(env, e.kf, Moved(e.q, e.ix[2])))
RingForm(e) ==               \* one term per exponent, none zero, the names kept
    LET g == e.got[1] IN
    /\ e.same /\ e.zeros = 0
    /\ g.kf = (IF e.f = "mulx" THEN e.kf ELSE e.p.kf)
    /\ Cardinality({ g.t[i][2] : i \in DOMAIN g.t }) = Len(g.t)

Want(e) ==
    CASE e.op = "ring" -> IF RingForm(e) THEN RingValue(e) ELSE -3
      [] e.op = "same" -> SumV(e.of)
      [] e.op = "deriv" -> F!Derivative(env, e.of.kf, e.of.t, e.wrt)
      [] e.op = "integral" -> Integral(e.n1, e.n2, e.m)
      [] e.op = "broken" -> -2                 \* no formula came back
Got(e) == IF e.op = "broken" THEN -1 ELSE SumV(e.got)

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "env" THEN env' = e.env /\ UNCHANGED <<bad, nok>>
       ELSE /\ UNCHANGED env
            /\ LET w == Want(e)  g == Got(e) IN
               IF w = g THEN nok' = nok + 1 /\ UNCHANGED bad
               ELSE nok' = nok /\ bad' = IF Len(bad) < 40 THEN Append(bad, <<e.id, w, g>>) ELSE bad
TraceInit == l = 1 /\ env = [k1 |-> 0] /\ bad = << >> /\ nok = 0
TraceSpec == TraceInit /\ [][Step]_vars

View == l
WellFormed == l <= Len(Trace) /\ Trace[l].op = "integral" =>
                  LET e == Trace[l] IN IntegralOK(e.n1, e.n2, e.m)
Report == l = Len(Trace) + 1 =>
            PrintT("VERDICT " \o ToJson([ok |-> nok, bad |-> bad, lines |-> Len(Trace)]))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
