----------------------------- MODULE TraceScalar -----------------------------
(***************************************************************************)
(* Judges the numbers the library computes: each must be the value of the    *)
(* formula it stands for, from the meaning of the names, at the parameters    *)
(* and jump path given, up to rounding.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils, Real

F == INSTANCE Formula WITH FAdd <- RAdd, FMul <- RMul, FPow <- RPow, FInt <- RInt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, env, bad, nok
vars == <<l, env, bad, nok>>

(* the primitive numbers of a parameter point, completed                      *)
Full(e) ==
    [ k1 |-> e.k1, k2 |-> e.k2, th1 |-> e.th1, s1 |-> e.s1, th2 |-> e.th2, s2 |-> e.s2,
      mu |-> e.mu, rho |-> e.rho, srho |-> e.srho, lam |-> e.lam, muv |-> e.muv, mus |-> e.mus,
      sgs |-> e.sgs, rhoJ |-> e.rhoJ, lam2 |-> e.lam2, v1 |-> e.v1, v2 |-> e.v2,
      t |-> e.t, s |-> e.s,
      e1 |-> TLCEval(RExp(RMul(e.k1, e.t))), e2 |-> TLCEval(RExp(RMul(e.k2, e.t))),
      es1 |-> TLCEval(RExp(RMul(e.k1, e.s))), es2 |-> TLCEval(RExp(RMul(e.k2, e.s))),
      path |-> TLCEval([j \in DOMAIN e.path |->
                  [E |-> TLCEval(RExp(RMul(e.k1, e.path[j].S))), S |-> e.path[j].S,
                   J |-> e.path[j].J, r |-> e.path[j].r]]) ]

Vals(e) == F!TermValues(env, e.of.kf, e.of.t)
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "env" THEN env' = Full(e.env) /\ UNCHANGED <<bad, nok>>
       ELSE /\ UNCHANGED env
            /\ IF e.op = "broken"
               THEN nok' = nok /\ bad' = Append(bad, <<e.id, "a number", "none">>)
               ELSE LET vs == TLCEval(Vals(e))
                        w == F!FSum(vs)  sc == F!FSum([i \in DOMAIN vs |-> RAbs(vs[i])])
                    IN  IF RClose(e.got, w, RMul(sc, e.tol), 0)
                        THEN nok' = nok + 1 /\ UNCHANGED bad
                        ELSE nok' = nok /\ bad' = IF Len(bad) < 40
                               THEN Append(bad, <<e.id, w, e.got>>) ELSE bad
TraceInit == l = 1 /\ env = [k1 |-> RZero] /\ bad = << >> /\ nok = 0
TraceSpec == TraceInit /\ [][Step]_vars

View == l
(* sqrt(1 - rho^2) as supplied is that number                                 *)
Roots == l <= Len(Trace) /\ Trace[l].op = "env" =>
           LET e == Trace[l].env
           IN  /\ e.srho.s >= 0
               /\ RClose(RAdd(RMul(e.rho, e.rho), RMul(e.srho, e.srho)), ROne, ROne, 4)
Report == l = Len(Trace) + 1 =>
            PrintT("VERDICT " \o ToJson([ok |-> nok, bad |-> bad, lines |-> Len(Trace)]))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
