------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A client's session with the library.                                     *)
(*                                                                         *)
(* The client makes requests (formulas, numbers at a parameter set, things    *)
(* derived from a formula it holds), keeps what it is given, edits what it    *)
(* holds, changes its parameter sets in place and forgets things.  The        *)
(* library has no memory: the answer to a request is a function of the        *)
(* request alone (of the contents of its arguments), and a request changes    *)
(* nothing the client holds.                                                 *)
(*                                                                         *)
(* Contents are abstract: [k |-> "val", a |-> request] is whatever the        *)
(* request is answered with in a fresh process; [k |-> "use", a |-> use,      *)
(* b |-> request] what the use of that formula gives; [k |-> "par", a |->      *)
(* variant]; [k |-> "edit", a |-> stamp] an object the client has edited.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Groups,    \* <<{requests of one function}, ...>>
          UsesOf,    \* request |-> set of uses of its formula
          NumsOf,    \* group |-> set of numbers that can be asked about it
          NPar,      \* number of parameter sets
          Depth, MaxHold, PoolSize

VARIABLES held,      \* what the client holds: contents
          pool,      \* the groups this session is about
          hist       \* what happened, with the contents of every answer
vars == <<held, pool, hist>>

Val(q) == [k |-> "val", a |-> q, b |-> 0]
Used(u, q) == [k |-> "use", a |-> u, b |-> q]
Par(v) == [k |-> "par", a |-> v, b |-> 0]
Edit(n) == [k |-> "edit", a |-> n, b |-> 0]
Num(n, v) == [k |-> "num", a |-> n, b |-> v]
None == [k |-> "none", a |-> 0, b |-> 0]

(* ---- the actions: op is what the client does, ans the content answered ----*)
Base == [o |-> "", q |-> 0, i |-> 0, j |-> 0, n |-> 0]
Did(op, ans) == hist' = Append(hist, [op |-> op, ans |-> ans])
Keep(c) == IF Len(held) < MaxHold THEN Append(held, c) ELSE [held EXCEPT ![1] = c]

Ask(q) == /\ held' = Keep(Val(q)) /\ UNCHANGED pool
          /\ Did([Base EXCEPT !.o = "ask", !.q = q], Val(q))
(* only formulas as given are used: an edited one may be anything             *)
Use(u, i) == /\ held[i].k = "val"
             /\ held' = Keep(Used(u, held[i].a)) /\ UNCHANGED pool
             /\ Did([Base EXCEPT !.o = "use", !.n = u, !.i = i], Used(u, held[i].a))
NewPar(v) == /\ held' = Keep(Par(v)) /\ UNCHANGED pool
             /\ Did([Base EXCEPT !.o = "newpar", !.n = v], Par(v))
Number(n, i) == /\ held[i].k = "par"
                /\ UNCHANGED <<held, pool>>
                /\ Did([Base EXCEPT !.o = "num", !.n = n, !.i = i], Num(n, held[i].a))
(* the client's own changes                                                   *)
Change(i, how) == /\ held[i].k \in {"val", "use", "edit"}
                  /\ held' = [held EXCEPT ![i] = Edit(Len(hist) + 1)] /\ UNCHANGED pool
                  /\ Did([Base EXCEPT !.o = "change", !.i = i, !.n = how], None)
RePar(i, v) == /\ held[i].k = "par"
               /\ held' = [held EXCEPT ![i] = Par(v)] /\ UNCHANGED pool
               /\ Did([Base EXCEPT !.o = "repar", !.i = i, !.n = v], None)
Drop(i) == /\ held' = SubSeq(held, 1, i - 1) \o SubSeq(held, i + 1, Len(held)) /\ UNCHANGED pool
           /\ Did([Base EXCEPT !.o = "drop", !.i = i], None)

(* ---- generating sessions ----------------------------------------------------*)
PoolReqs == UNION { Groups[g] : g \in pool }
PoolNums == UNION { NumsOf[g] : g \in pool }
Pick(S, x) == IF S = {} THEN {} ELSE {RandomElement(S)}      \* x: evaluated anew in each state
Of(kinds) == { i \in DOMAIN held : held[i].k \in kinds }

Init == /\ held = << >> /\ hist = << >>
        /\ pool \in {RandomSubset(PoolSize, DOMAIN Groups)}
Dice == RandomElement(1 .. 20)
Next == /\ Len(hist) < Depth
        /\ LET nums == PoolNums IN
           \E d \in {IF Len(hist) = 0 /\ nums # {} THEN 13 ELSE RandomElement(1 .. 20)} :
           CASE d <= 7 -> \E q \in Pick(PoolReqs, hist) : Ask(q)
             [] d <= 9 /\ \E i \in Of({"val"}) : UsesOf[held[i].a] # {} ->
                  \E i \in Pick({ i \in Of({"val"}) : UsesOf[held[i].a] # {} }, hist) :
                     \E u \in Pick(UsesOf[held[i].a], hist) : Use(u, i)
             [] d <= 12 /\ nums # {} /\ Of({"par"}) # {} ->
                  \E i \in Pick(Of({"par"}), hist) : \E n \in Pick(nums, hist) : Number(n, i)
             [] d = 13 /\ nums # {} -> \E v \in Pick(1 .. NPar, hist) : NewPar(v)
             [] d <= 17 /\ Of({"val", "use", "edit"}) # {} ->
                  \E i \in Pick(Of({"val", "use", "edit"}), hist) : \E how \in Pick(1 .. 8, hist) : Change(i, how)
             [] d = 18 /\ Of({"par"}) # {} ->
                  \E i \in Pick(Of({"par"}), hist) : \E v \in Pick(1 .. NPar, hist) : RePar(i, v)
             [] d = 19 /\ Len(held) > 2 -> \E i \in Pick(DOMAIN held, hist) : Drop(i)
             [] OTHER -> \E q \in Pick(PoolReqs, hist) : Ask(q)
Emit == Len(hist) = Depth => PrintT("BEHAVIOUR " \o ToJson([j \in DOMAIN hist |-> hist[j]]))

(* ---- generating tours: every request and every number of the pool is asked,
        what was answered is used and changed, and it is asked again ---------------*)
Asked(q) == Cardinality({ j \in DOMAIN hist : hist[j].op.o = "ask" /\ hist[j].op.q = q })
Counted(n) == Cardinality({ j \in DOMAIN hist : hist[j].op.o = "num" /\ hist[j].op.n = n })
LastOf(o) == LET J == { j \in DOMAIN hist : hist[j].op.o = o } IN hist[CHOOSE j \in J : \A k \in J : k <= j].op
LeftReqs == { q \in PoolReqs : Asked(q) = 0 }
LeftNums == { n \in PoolNums : Counted(n) = 0 }
Latest == Len(held)
Item == LET a == LeftReqs
            b == LeftNums
            d == RandomElement(1 .. 1000 + Len(hist)) % (Cardinality(a) + Cardinality(b) + 1) IN
        IF Len(held) > 4 THEN \E i \in Pick(1 .. 3, hist) : Drop(i)
        ELSE IF a # {} /\ (b = {} \/ d < Cardinality(a)) THEN \E q \in Pick(a, hist) : Ask(q)
        ELSE /\ b # {}
             /\ \E v \in Pick(1 .. NPar, hist) : NewPar(v)
TourNext ==
    IF hist = << >> THEN Item
    ELSE LET e == hist[Len(hist)].op IN
      CASE e.o = "ask" /\ Asked(e.q) = 1 /\ UsesOf[e.q] # {} ->
             \E u \in Pick(UsesOf[e.q], hist) : Use(u, Latest)
        [] e.o = "ask" /\ (Asked(e.q) > 1 \/ UsesOf[e.q] = {}) ->
             \E how \in Pick(1 .. 8, hist) : Change(Latest, how)
        [] e.o = "use" -> \E i \in Pick({Latest - 1, Latest}, hist) : \E how \in Pick(1 .. 8, hist) : Change(i, how)
        [] e.o = "change" -> IF Asked(LastOf("ask").q) = 1 THEN Ask(LastOf("ask").q) ELSE Item
        [] e.o = "drop" -> Item
        [] e.o = "newpar" -> \E n \in Pick(LeftNums, hist) : Number(n, Latest)
        [] e.o = "num" /\ Counted(e.n) = 1 ->
             \E v \in Pick((1 .. NPar) \ {held[e.i].a}, hist) : RePar(e.i, v)
        [] e.o = "repar" -> Number(LastOf("num").n, e.i)
        [] OTHER -> Item
Toured == /\ hist # << >> /\ LeftReqs = {} /\ LeftNums = {}
          /\ LET e == hist[Len(hist)].op IN
             \/ e.o = "change" /\ Asked(LastOf("ask").q) = 2
             \/ e.o = "num" /\ Counted(e.n) = 2
             \/ e.o = "drop"
Touring == ~Toured /\ TourNext
EmitTour == Toured => PrintT("BEHAVIOUR " \o ToJson([j \in DOMAIN hist |-> hist[j]]))

(* ---- what the session machine guarantees (checked on small instances) -------*)
Same(x, y) == [x EXCEPT !.i = 0, !.j = 0] = [y EXCEPT !.i = 0, !.j = 0]
(* the same request with the same arguments is always answered alike             *)
Deterministic == LET z == hist[Len(hist)] IN
    hist # << >> /\ z.op.o = "ask" =>
       \A a \in DOMAIN hist : hist[a].op = z.op => hist[a].ans = z.ans
(* a request leaves everything held as it was; a change touches one thing          *)
Frame == [][ LET e == hist'[Len(hist')].op IN
             CASE e.o \in {"ask", "use", "newpar"} -> \A i \in DOMAIN held : i > 1 => held'[i] = held[i]
               [] e.o = "num" -> held' = held
               [] e.o \in {"change", "repar"} -> \A i \in DOMAIN held : i # e.i => held'[i] = held[i]
               [] OTHER -> TRUE ]_vars
============================================================================
