------------------------------ MODULE TraceAJD ------------------------------
(***************************************************************************)
(* Checks a recorded trace of the implementation against AJDMachine.        *)
(* Each line is one event; "ask" events carry the value the implementation  *)
(* returned (its symbolic result, projected to GF(P) at the event's point). *)
(* Verdicts are total: a wrong value is collected in `bad`, never blocks.   *)
(***************************************************************************)
EXTENDS AJDMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad, nok
tvars == <<vars, l, bad, nok>>

Ev == Trace[l]
Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1
Silent == UNCHANGED <<bad, nok>>

TStart == Is("start") /\ Silent
          /\ Start(Ev.mode, Ev.nv, Ev.par, Ev.law, Ev.clk, Ev.ord)
TPlace == Is("place") /\ Silent /\ Place(Ev.pt)
TCommit == Is("commit") /\ Silent /\ Commit
TJump == Is("jump") /\ Silent /\ JumpAt(Ev.J)
TObserve == Is("observe") /\ Silent /\ Observe
TAsk == /\ Is("ask")
        /\ LET tab == Closed(QNeed(Ev.ask))
               want == QVal(tab, Ev.ask)
           IN  /\ memo' = tab
               /\ IF want = Ev.got THEN nok' = nok + 1 /\ UNCHANGED bad
                  ELSE nok' = nok /\ bad' = (IF Len(bad) < 40
                                             THEN Append(bad, <<Ev.id, want, Ev.got>>) ELSE bad)
        /\ UNCHANGED <<mode, par, env, clk, at, ord>>

TraceInit == Init /\ l = 1 /\ bad = << >> /\ nok = 0
TraceNext == TStart \/ TPlace \/ TCommit \/ TJump \/ TObserve \/ TAsk
TraceSpec == TraceInit /\ [][TraceNext]_tvars

View == l
(* every mean-reversion rate of the generator is what Solve assumes          *)
WellFormed == l <= Len(Trace) /\ l > 1 /\ mode # "none" =>
                 \A al \in DOMAIN memo : SelfOK(env, al)
Report == l = Len(Trace) + 1 =>
            PrintT("VERDICT " \o ToJson([ok |-> nok, bad |-> bad, lines |-> Len(Trace)]))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
