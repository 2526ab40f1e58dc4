------------------------------ MODULE TraceApi ------------------------------
(***************************************************************************)
(* What a request to the library is answered with.                          *)
(*                                                                         *)
(* "form": the formula returned for a kind of request has the names           *)
(*         documented for that kind and is in canonical form.                 *)
(* "ask" : a request either has a meaning (a formula, a number, a list comes  *)
(*         back) or has none (the documented error is raised).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, nok
vars == <<l, bad, nok>>

(* ---- the documented names -------------------------------------------------*)
T0 == "(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}"
Jumps == <<"l_{1:n}", "o_{1:n}", "p_{2:n}", "q_{2:n}">>
Rho == <<"sigma/2k", "rho-sigma/2k", "sqrt(1-rho^2)">>
Fsv1 == <<"theta", "sigma_v", "rho", "sqrt(1-rho^2)">>
Fsv2 == <<"theta1", "sigma_v1", "theta2", "sigma_v2">>
PJ == <<"lambda", "mu_j", "sigma_j">>
Eh == <<"e^{-kh}", "h", "k^{-}">>
Eh2 == <<T0, "e^{-(n1*k1+n2*k2)h}", "h">>
SvcjTail == <<"theta", "sigma", "rho", "lmbd", "mu_v", "rhoJ", "mu_s", "sigma_s">>
Cond2 == <<"e^{kt}", "t", "k^{-}", "beta_t", "mu-theta/2", "v0-theta", "theta", "sigma">>
CCond2 == <<"e^{kt}", "t", "k^{-}", "v0-theta", "theta", "sigma">>
SvijTail == <<"lmbd_s", "mu_s", "sigma_s">>

Names == [
  fsv_mom |-> Eh \o <<"mu">> \o Fsv1,             fsv_cmom |-> Eh \o Fsv1,
  fsvj_mom |-> Eh \o <<"mu">> \o Fsv1 \o PJ,      fsvj_cmom |-> Eh \o Fsv1 \o PJ,
  fsv2_mom |-> Eh2 \o <<"mu">> \o Fsv2,           fsv2_cmom |-> Eh2 \o Fsv2,
  fsvj2_mom |-> Eh2 \o <<"mu">> \o Fsv2 \o PJ,    fsvj2_cmom |-> Eh2 \o Fsv2 \o PJ,
  ito |-> <<"e^{k(n-1)h}", "e^{k[t-(n-1)h]}", "[t-(n-1)h]", "v_{n-1}", "k^{-}", "theta", "sigma_v">>,
  ito_v |-> <<"theta", "sigma_v^2/k">>,
  itos |-> <<T0, "e^{(m_4*k1+m_6*k2)(n-1)h}", "e^{(j_1*k1+j_2*k2)[t-(n-1)h]}", "[t-(n-1)h]",
             "v_{1,n-1}", "theta1", "sigma_v1", "v_{2,n-1}", "theta2", "sigma_v2">>,
  ito_cond |-> <<"e^{kt}", "t", "k^{-}", "v0-theta", "theta", "sigma">> \o Jumps,
  norm |-> <<"mu", "sigma^2">>,                   cnorm |-> <<"sigma">>,
  cpp |-> <<"lambda*h", "mu", "sigma">>,          cpp_orig |-> <<"lambda*h", "mu", "sigma^2">>,
  fsv_cond |-> <<"e^{kt}", "t", "k^{-}", "v_0-theta", "theta", "sigma">> \o Rho,
  srjd_cond |-> <<"e^{kt}", "k^{-}", "v0-theta", "theta", "sigma", "lmbd", "mu_v">>,
  srjd_mom |-> <<"k^{-}", "theta", "sigma", "lmbd", "mu_v">>,
  srjd_cmom |-> <<"k^{-}", "E[v]", "sigma", "lmbd", "mu_v">>,
  srjd_condE |-> <<"e^{kt}", "k^{-}", "v0-E[v]", "E[v]", "sigma", "lmbd", "mu_v">>,
  srjd_path |-> <<"v_0", "k^{-}", "theta", "sigma", "e^{kt}", "l_{1:n}", "o_{2:n}">>,
  iez |-> <<"e^{kt}", "e^{ks}", "k^{-}", "lmbd", "mu_v">>,
  ieziziz |-> <<"e^{kt}", "e^{ks}", "t-s", "k^{-}", "lmbd", "mu_v", "mu_s", "sigma_s">>,
  ieii_ieziziz |-> <<"e^{kt}", "t", "k^{-}", "v0-theta", "theta", "sigma", "lmbd", "mu_v", "mu_s", "sigma_s">>,
  svcj_cond |-> <<"e^{kt}", "t", "k^{-}", "mu", "v0-theta">> \o SvcjTail,
  svcj |-> <<"e^{kt}", "t", "k^{-}", "mu", "E[v]">> \o SvcjTail,
  svvj |-> Cond2 \o Jumps \o Rho,                 svvj_c |-> CCond2 \o Jumps \o Rho,
  svij |-> Cond2 \o Jumps \o Rho \o SvijTail,     svij_c |-> CCond2 \o Jumps \o Rho \o SvijTail,
  svcj_path |-> Cond2 \o Jumps \o Rho \o <<"mu_s", "rho_J", "sigma_s", "J_{1:n}">>,
  svcj_path_c |-> CCond2 \o Jumps \o Rho \o <<"sigma_s">>,
  free |-> << >> ]

(* ---- canonical form ---------------------------------------------------------*)
(* an exponent as recorded: [k |-> "int" | "tup" | "tups" | "bad", v |-> list]    *)
IsInt(x) == x.k = "int"
IsTup(x, n) == x.k = "tup" /\ Len(x.v) = n
IsTups(x, n) == x.k = "tups" /\ \A i \in DOMAIN x.v : Len(x.v[i]) = n
Sizes == { "l_{1:n}", "o_{1:n}", "o_{2:n}", "p_{2:n}", "q_{2:n}" }
Pairs == { "e^{-(n1*k1+n2*k2)h}", "e^{(m_4*k1+m_6*k2)(n-1)h}", "e^{(j_1*k1+j_2*k2)[t-(n-1)h]}",
           "e^{(n1*k1+n2*k2)[t-(n-1)h]}" }
Pos(kf, nm) == CHOOSE i \in DOMAIN kf : kf[i] = nm
(* number of summation indices of a term's jump functional                       *)
Level(kf, key) == Len(key[Pos(kf, "l_{1:n}")].v)
Later(n) == IF n = 0 THEN 0 ELSE n - 1
(* a product of powers of rates n1*k1+n2*k2: the rates differ from factor to factor,
   no rate and no power is 0; the product without factors is written (0,0,0) or ()  *)
ProductOK(v) ==
    \/ v = << <<0, 0, 0>> >>
    \/ /\ \A i \in DOMAIN v : v[i][3] # 0 /\ <<v[i][1], v[i][2]>> # <<0, 0>>
       /\ \A i, j \in DOMAIN v : i # j => <<v[i][1], v[i][2]>> # <<v[j][1], v[j][2]>>
ExpoOK(kf, key, i, njump) ==
    LET nm == kf[i]  x == key[i]
    IN  CASE nm = T0 -> IsTups(x, 3) /\ ProductOK(x.v)
          [] nm = "(n1*k1+n2*k2)^{-}" -> IsTup(x, 3)
          [] nm \in Pairs -> IsTup(x, 2)
          [] nm = "J_{1:n}" -> IsTup(x, njump)
          [] nm = "l_{1:n}" -> x.k = "tup"
          [] nm = "o_{1:n}" -> IsTup(x, Level(kf, key))
          [] nm \in {"o_{2:n}", "p_{2:n}", "q_{2:n}"} -> IsTup(x, Later(Level(kf, key)))
          [] OTHER -> IsInt(x)
(* e.t: terms [key, type of the coefficient, whether it is zero]                  *)
TermOK(e, t) ==
    /\ Len(t.key) = Len(e.kf)
    /\ t.type \in { "int", "Fraction" }
    /\ e.zerofree => ~t.zero
    /\ \A i \in DOMAIN e.kf : ExpoOK(e.kf, t.key, i, e.njump)
FormOK(e) == /\ e.kind # "free" => e.kf = Names[e.kind]
             /\ \A i \in DOMAIN e.t : TermOK(e, e.t[i])
Distinct(e) == Cardinality({ e.t[i].key : i \in DOMAIN e.t }) = Len(e.t)

(* ---- requests with and without a meaning -----------------------------------*)
Natural(s) == \A i \in DOMAIN s : s[i] >= 0
ParsOf(model) ==
    CASE model = "1fsv" -> {"k", "mu", "theta", "sigma_v", "rho"}
      [] model = "1fsvj" -> {"k", "mu", "theta", "sigma_v", "rho", "lambda", "mu_j", "sigma_j"}
      [] model = "2fsv" -> {"k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2"}
      [] model = "2fsvj" -> {"k1", "k2", "mu", "theta1", "sigma_v1", "theta2", "sigma_v2",
                             "lambda", "mu_j", "sigma_j"}
(* what may be answered: a set of outcomes; "error" stands for any error          *)
Answers(e) ==
    CASE e.what = "orders" ->            \* joint moments that check every order
            IF Natural(e.args) THEN {"formula"} ELSE {"ValueError"}
      [] e.what = "power" ->             \* time integrals: (rates ..., power of time)
            IF e.args[Len(e.args)] >= 0 THEN {"formula"} ELSE {"ValueError"}
      [] e.what = "stationary" ->        \* no documented kind of error
            IF Natural(e.args) THEN {"formula"} ELSE {"error"}
      [] e.what = "wrt" ->               \* derivatives: e.own, the names the formula announces
            IF e.wrt \in ParsOf(e.model) \cap e.own THEN {"formula", "number"}
            ELSE IF e.wrt \notin ParsOf(e.model) THEN {"ValueError"}
            ELSE {"formula", "number", "ValueError"}   \* mu, in a formula without mu
      [] e.what = "ring" ->              \* a binary operation of polynomials
            IF e.ka = e.kb THEN {"formula"} ELSE {"NotImplementedError"}
      [] e.what = "raise" ->
            IF e.args[1] >= 1 THEN {"formula"} ELSE {"NotImplementedError"}
      [] e.what = "even" ->              \* removing sqrt(1-rho^2): all its powers are even, or an error
            IF e.args[1] % 2 = 0 THEN {"formula"} ELSE {"error"}
      [] e.what = "mode" -> IF e.args[1] \in {1, 2, 3} THEN {"formula"} ELSE {"error"}
(* the same type: the same names in the same places                             *)
TypesWant(e) == IF e.ka = e.kb THEN "yes" ELSE "no"
AskOK(e) == LET A == Answers(e)
            IN  e.got \in A \/ ("error" \in A /\ e.got \notin {"formula", "number"})

(* ---- a product of powers of rates, multiplied up factor by factor -----------*)
(* e.f: the factors (n1, n2, i), in order; e.got: the product                     *)
Pow(v, a, b) == FoldSeq(LAMBDA t, s : IF t[1] = a /\ t[2] = b THEN s + t[3] ELSE s, 0, v)
RatesOf(v) == { <<v[i][1], v[i][2]>> : i \in DOMAIN v }
MultipliedOK(e) ==
    /\ \A i \in DOMAIN e.got : Len(e.got[i]) = 3
    /\ ProductOK(e.got)
    /\ \A r \in RatesOf(e.f) \cup RatesOf(e.got) :
          r # <<0, 0>> => Pow(e.f, r[1], r[2]) = Pow(e.got, r[1], r[2])

OK(e) == CASE e.op = "form" -> FormOK(e) /\ Distinct(e)
           [] e.op = "product" -> MultipliedOK(e)
           [] e.op = "ask" -> AskOK([e EXCEPT !.own = ToSet(@)])
           [] e.op = "types" -> e.got = TypesWant(e)
           [] OTHER -> FALSE
Want(e) == IF e.op = "ask" THEN ToString(Answers([e EXCEPT !.own = ToSet(@)]))
           ELSE IF e.op = "form" /\ e.kind # "free" /\ e.kf # Names[e.kind] THEN ToString(Names[e.kind])
           ELSE IF e.op = "form" THEN "canonical terms"
           ELSE IF e.op = "types" THEN TypesWant(e)
           ELSE IF e.op = "product" THEN "the product of " \o ToString(e.f) ELSE "an answer"
Seen(e) == IF e.op \in {"ask", "types"} THEN e.got
           ELSE IF e.op = "product" THEN ToString(e.got)
           ELSE IF e.op = "form" THEN
                IF e.kind # "free" /\ e.kf # Names[e.kind] THEN ToString(e.kf)
                ELSE LET B == { i \in DOMAIN e.t : ~TermOK(e, e.t[i]) }
                     IN  IF B = {} THEN "repeated terms" ELSE ToString(e.t[CHOOSE i \in B : TRUE])
           ELSE e.seen
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF OK(e) THEN nok' = nok + 1 /\ UNCHANGED bad
       ELSE nok' = nok /\ bad' = IF Len(bad) < 40 THEN Append(bad, <<e.id, Want(e), Seen(e)>>) ELSE bad
TraceInit == l = 1 /\ bad = << >> /\ nok = 0
TraceSpec == TraceInit /\ [][Step]_vars
View == l
Report == l = Len(Trace) + 1 =>
            PrintT("VERDICT " \o ToJson([ok |-> nok, bad |-> bad, lines |-> Len(Trace)]))
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
