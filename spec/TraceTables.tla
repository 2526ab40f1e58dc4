----------------------------- MODULE TraceTables -----------------------------
(***************************************************************************)
(* Judges enumerations, counting helpers, jump sums and written files.       *)
(*                                                                         *)
(* An enumeration is right when it lists every element of the set defined     *)
(* here exactly once.  A file is right when its title names every exponent    *)
(* and its rows are the terms of the formula, each once.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils, Real

F == INSTANCE Formula WITH FAdd <- RAdd, FMul <- RMul, FPow <- RPow, FInt <- RInt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, nok
vars == <<l, bad, nok>>

(* ---- enumerations ---------------------------------------------------------*)
Indices(n, m) == [1 .. n -> 0 .. m - 1]
RECURSIVE Comps(_, _)                    \* tuples of length n with sum m
Comps(n, m) == IF n = 1 THEN { <<m>> }
               ELSE UNION { { <<i>> \o c : c \in Comps(n - 1, m - i) } : i \in 0 .. m }
Sum(s) == FoldSeq(LAMBDA x, a : x + a, 0, s)
Lists(got, S) == Len(got) = Cardinality(S) /\ ToSet(got) = S

(* counts as exact multi-limb numbers (below 10^20)                            *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN ROne ELSE RMul(RInt(n), Fact(n - 1))
RECURSIVE DFact(_)
DFact(n) == IF n <= 1 THEN ROne ELSE RMul(RInt(n), DFact(n - 2))
(* C(n; k1, ..., kr) by Pascal: number of words                                *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN ROne ELSE RAdd(Binom(n - 1, k - 1), Binom(n - 1, k))
RECURSIVE Multi(_)
Multi(ks) == IF ks = << >> THEN ROne
             ELSE RMul(Binom(Sum(ks), Head(ks)), Multi(Tail(ks)))

(* counts of any size, by their residue                                        *)
M == INSTANCE Fp
RECURSIVE MultiP(_)
MultiP(ks) == IF ks = << >> THEN 1 ELSE M!Mul(M!CombP(Sum(ks), Head(ks)), MultiP(Tail(ks)))
RECURSIVE DFactP(_)
DFactP(n) == IF n <= 1 THEN 1 ELSE M!Mul(n, DFactP(n - 2))

(* ---- files ------------------------------------------------------------------*)
(* the columns a formula's names stand for, given the number of jump indices n *)
Col(c, from, n) == [i \in 1 .. n - from + 1 |-> c \o ToString(from + i - 1)]
Columns(kf, n) ==
    FlattenSeq([i \in DOMAIN kf |->
        CASE kf[i] = "l_{1:n}" -> Col("l", 1, n)
          [] kf[i] = "o_{1:n}" -> Col("o", 1, n)
          [] kf[i] = "o_{2:n}" -> Col("o", 2, n)
          [] kf[i] = "p_{2:n}" -> Col("p", 2, n)
          [] kf[i] = "q_{2:n}" -> Col("q", 2, n)
          [] OTHER -> <<kf[i]>>])
IsSeqName(nm) == nm \in F!JumpNames
Flat(kf, key) == FlattenSeq([i \in DOMAIN kf |-> IF IsSeqName(kf[i]) THEN key[i] ELSE <<key[i]>>])
(* e.kf, e.t: the formula, terms [key, num, den] with num, den as strings;      *)
(* e.n: length of the jump indices; e.title, e.rows: what is in the file        *)
(* a name may itself contain commas, so the title line counts as a whole or,    *)
(* where the names are quoted, by its cells                                    *)
Join(cs) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "," \o x, "", cs)
CsvOK(e) == /\ LET cs == Columns(e.kf, e.n) \o <<"num", "den">>
               IN  e.title = cs \/ e.line = Join(cs)
            /\ Lists(e.rows, { <<Flat(e.kf, e.t[i][1]), e.t[i][2], e.t[i][3]>> : i \in DOMAIN e.t })
            /\ Len(e.rows) = Len(e.t)
TxtOK(e) == /\ e.title = e.kf
            /\ Lists(e.rows, { e.t[i] : i \in DOMAIN e.t })
            /\ Len(e.rows) = Len(e.t)

(* ---- jump sums --------------------------------------------------------------*)
FullPath(e) == [j \in DOMAIN e.path |->
                  [E |-> RExp(RMul(e.k, e.path[j].S)), S |-> e.path[j].S, J |-> e.path[j].J,
                   r |-> e.path[j].r]]
JumpSum(e) == F!FZ(FullPath(e), e.l, e.o, e.p, e.q)
(* one tuple of jumps (indices from 0)                                         *)
OneIndex(e) ==
    LET path == FullPath(e)  ix == [i \in DOMAIN e.index |-> e.index[i] + 1]
    IN  F!FProd([i \in DOMAIN ix |-> IF i = 1 THEN F!Own(path, ix[1], e.l, e.o, 1)
                   ELSE RMul(F!Own(path, ix[i], e.l, e.o, i),
                             F!Late(path, F!RunMax(path, ix, i), e.p, e.q, i))])

OK(e) ==
    CASE e.op = "index" -> Lists(e.got, Indices(e.n, e.m))
      [] e.op = "comps" -> Lists(e.got, Comps(e.n, e.m))
      [] e.op = "multi" -> e.got = Multi(e.ks)
      [] e.op = "multiP" -> e.got = MultiP(e.ks)
      [] e.op = "dfactP" -> e.got = DFactP(e.n)
      [] e.op = "dfact" -> e.got = DFact(e.n)
      [] e.op = "csv" -> CsvOK(e)
      [] e.op = "txt" -> TxtOK(e)
      [] e.op = "fz" -> RClose(e.got, JumpSum(e), JumpSum(e), 2)      \* positive jumps: all terms positive
      [] e.op = "fz1" -> RClose(e.got, OneIndex(e), OneIndex(e), 2)
      [] OTHER -> FALSE

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF OK(e) THEN nok' = nok + 1 /\ UNCHANGED bad
       ELSE nok' = nok /\ bad' = IF Len(bad) < 40 THEN Append(bad, <<e.id, e.want, e.seen>>) ELSE bad
TraceInit == l = 1 /\ bad = << >> /\ nok = 0
TraceSpec == TraceInit /\ [][Step]_vars

(* the definitions agree with one another                                      *)
ASSUME \A n \in 1 .. 3, m \in 0 .. 3 :
          /\ Comps(n, m) = { c \in [1 .. n -> 0 .. m] : Sum(c) = m }
          /\ FoldSet(LAMBDA c, a : RAdd(Multi(c), a), RZero, Comps(n, m)) = RPow(RInt(n), m)
ASSUME \A n \in 1 .. 3, m \in 0 .. 4 : \A c \in Comps(n, m) : RInt(MultiP(c)) = Multi(c)
ASSUME \A n \in 1 .. 9 : RMul(DFact(n), DFact(n - 1)) = Fact(n)
View == l
Report == l = Len(Trace) + 1 =>
            PrintT("VERDICT " \o ToJson([ok |-> nok, bad |-> bad, lines |-> Len(Trace)]))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
