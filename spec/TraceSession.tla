--------------------------- MODULE TraceSession ---------------------------
(***************************************************************************)
(* Validates recorded sessions against Session.                             *)
(*                                                                         *)
(* The trace starts with what fresh processes answer: content -> token (a     *)
(* token stands for one exact value; equal values have equal tokens).  Every   *)
(* recorded step carries the client's operation, the token of the answer and   *)
(* the tokens of everything held afterwards; the session machine takes the     *)
(* same step and must predict all of them.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Functions

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, held, hist, pool, tok, bad, nok, lost
vars == <<l, held, hist, pool, tok, bad, nok, lost>>

S == INSTANCE Session WITH Groups <- << {1} >>, UsesOf <- << {} >>, NumsOf <- << {} >>, NPar <- 1,
                           Depth <- 1, MaxHold <- 7, PoolSize <- 1
Key(c) == <<c.k, c.a, c.b>>
Fresh(e) == [i \in DOMAIN e.val |-> e.val[i]]
(* the step of the machine for a recorded operation                             *)
Act(op) == CASE op.o = "ask" -> S!Ask(op.q)
             [] op.o = "use" -> S!Use(op.n, op.i)
             [] op.o = "newpar" -> S!NewPar(op.n)
             [] op.o = "num" -> S!Number(op.n, op.i)
             [] op.o = "change" -> S!Change(op.i, op.n)
             [] op.o = "repar" -> S!RePar(op.i, op.n)
             [] op.o = "drop" -> S!Drop(op.i)
(* contents of one session only: the stamps of edits are not unique otherwise    *)
Global(t) == LET D == { c \in DOMAIN t : c[1] # "edit" } IN [c \in D |-> t[c]]

(* tokens the machine predicts, after binding what the client made itself        *)
Known(t, c, seen) == IF Key(c) \in DOMAIN t THEN t[Key(c)] ELSE seen
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.op = "fresh" ->
              /\ tok' = [c \in { <<v.k, v.a, v.b>> : v \in { e.val[i] : i \in DOMAIN e.val } } |->
                           (CHOOSE v \in { e.val[i] : i \in DOMAIN e.val } : <<v.k, v.a, v.b>> = c).t]
              /\ held' = << >> /\ hist' = << >> /\ lost' = FALSE /\ UNCHANGED <<pool, bad, nok>>
         [] e.op = "session" ->
              /\ held' = << >> /\ hist' = << >> /\ tok' = Global(tok) /\ lost' = FALSE
              /\ UNCHANGED <<pool, bad, nok>>
         [] e.op = "step" /\ lost ->    \* this session has gone astray already: reported once
              UNCHANGED <<held, hist, pool, tok, bad, nok, lost>>
         [] OTHER ->
              /\ Act(e.do)
              /\ LET h == held'
                     ans == hist'[Len(hist')].ans
                     (* an edit made by the client: whatever it made                     *)
                     t2 == IF e.do.o = "change"
                           THEN (<<"edit", Len(hist'), 0>> :> e.hold[e.do.i]) @@ tok
                           ELSE tok
                     want == [i \in DOMAIN h |-> Known(t2, h[i], -1)]
                     answer == IF ans.k = "none" THEN e.ans ELSE Known(t2, ans, -1)
                     good == Len(e.hold) = Len(h) /\ want = e.hold /\ answer = e.ans
                 IN  /\ tok' = t2
                     /\ IF good THEN nok' = nok + 1 /\ UNCHANGED <<bad, lost>>
                        ELSE /\ nok' = nok /\ lost' = TRUE
                             /\ bad' = IF Len(bad) < 30
                                       THEN Append(bad, <<e.id,
                                            IF answer # e.ans THEN "the answer of a fresh process"
                                            ELSE "everything held unchanged",
                                            IF answer # e.ans THEN "another answer"
                                            ELSE "changed: " \o ToString({ i \in DOMAIN h \cap DOMAIN e.hold :
                                                                           want[i] # e.hold[i] }) >>)
                                       ELSE bad
TraceInit == /\ l = 1 /\ held = << >> /\ hist = << >> /\ pool = {} /\ bad = << >> /\ nok = 0
             /\ lost = FALSE /\ tok = << >>
TraceSpec == TraceInit /\ [][Step]_vars
View == l
Report == l = Len(Trace) + 1 =>
            PrintT("VERDICT " \o ToJson([ok |-> nok, bad |-> bad, lines |-> Len(Trace)]))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
