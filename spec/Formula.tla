------------------------------ MODULE Formula ------------------------------
(***************************************************************************)
(* The meaning of the library's formulas.                                   *)
(*                                                                         *)
(* A formula is a list of names and a list of terms [coefficient, key]; the  *)
(* key has one exponent per name.  This module says what each name stands    *)
(* for, in terms of the model's parameters, time, and the jump path, over    *)
(* any field given by the operators below: instantiated with GF(P) (exact,   *)
(* by random evaluation) and with multi-limb real numbers.                   *)
(*                                                                         *)
(* env: k1 k2 th1 s1 th2 s2 mu rho srho lam muv mus sgs rhoJ lam2 v1 v2      *)
(*      t = time, e1 = exp(k1 t), e2 = exp(k2 t)                             *)
(*      s, es1, es2: the same at the start of the interval (absolute time)   *)
(*      path: sequence of jumps [E = exp(k1 s_j), S = s_j, J, r = rank in    *)
(*      time]                                                               *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE TLC

CONSTANTS FAdd(_, _), FMul(_, _), FPow(_, _), FInt(_)

FSub(a, b) == FAdd(a, FMul(FInt(-1), b))
FDiv(a, b) == FMul(a, FPow(b, -1))
FSum(s) == FoldSeq(LAMBDA x, acc : FAdd(x, acc), FInt(0), s)
FProd(s) == FoldSeq(LAMBDA x, acc : FMul(x, acc), FInt(1), s)

T0Name == "(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}"
T1Name == "(n1*k1+n2*k2)^{-}"
Pairs == { "e^{-(n1*k1+n2*k2)h}", "e^{(m_4*k1+m_6*k2)(n-1)h}", "e^{(j_1*k1+j_2*k2)[t-(n-1)h]}",
           "e^{(n1*k1+n2*k2)[t-(n-1)h]}" }
JumpNames == { "l_{1:n}", "o_{1:n}", "o_{2:n}", "p_{2:n}", "q_{2:n}" }
IsJumpStart(nm) == nm = "l_{1:n}"

Rate2(env, n1, n2) == FAdd(FMul(FInt(n1), env.k1), FMul(FInt(n2), env.k2))
EV(env) == FAdd(env.th1, FDiv(FMul(env.lam, env.muv), env.k1))

(* the base of a name: the name raised to the exponent x is Base^x            *)
Base(env, nm) ==
    CASE nm \in {"e^{kt}", "e^{k[t-(n-1)h]}"} -> env.e1
      [] nm \in {"e^{-kt}", "e^{-kh}"} -> FPow(env.e1, -1)
      [] nm \in {"e^{ks}", "e^{k(n-1)h}", "e^{k(s_i1 v...v s_in)}"} -> env.es1
      [] nm \in {"t", "h", "[t-(n-1)h]"} -> env.t
      [] nm = "t-s" -> FSub(env.t, env.s)
      [] nm \in {"s", "(s_i1 v...v s_in)"} -> env.s
      [] nm = "k^{-}" -> FPow(env.k1, -1)
      [] nm \in {"mu"} -> env.mu
      [] nm \in {"theta", "theta1"} -> env.th1
      [] nm = "theta2" -> env.th2
      [] nm \in {"sigma", "sigma_v", "sigma_v1"} -> env.s1
      [] nm = "sigma_v2" -> env.s2
      [] nm = "rho" -> env.rho
      [] nm = "sqrt(1-rho^2)" -> env.srho
      [] nm \in {"lambda", "lmbd"} -> env.lam
      [] nm = "mu_v" -> env.muv
      [] nm \in {"mu_j", "mu_s"} -> env.mus
      [] nm \in {"sigma_j", "sigma_s"} -> env.sgs
      [] nm \in {"rhoJ", "rho_J"} -> env.rhoJ
      [] nm = "lmbd_s" -> env.lam2
      [] nm \in {"v_0", "v_{n-1}", "v_{1,n-1}"} -> env.v1
      [] nm = "v_{2,n-1}" -> env.v2
      [] nm \in {"v0-theta", "v_0-theta"} -> FSub(env.v1, env.th1)
      [] nm = "E[v]" -> EV(env)
      [] nm = "v0-E[v]" -> FSub(env.v1, EV(env))
      [] nm = "beta_t" -> FDiv(FSub(FInt(1), FPow(env.e1, -1)), FMul(FInt(2), env.k1))
      [] nm = "mu-theta/2" -> FSub(env.mu, FDiv(env.th1, FInt(2)))
      [] nm = "sigma/2k" -> FDiv(env.s1, FMul(FInt(2), env.k1))
      [] nm = "rho-sigma/2k" -> FSub(env.rho, FDiv(env.s1, FMul(FInt(2), env.k1)))
      [] nm = "sigma_v^2/k" -> FDiv(FMul(env.s1, env.s1), env.k1)

(* ---- the jump functional: sum over all tuples of jumps -------------------*)
Latest(path, i, j) == IF path[i].r >= path[j].r THEN i ELSE j
RECURSIVE RunMax(_, _, _)
RunMax(path, ix, n) == IF n = 1 THEN ix[1] ELSE Latest(path, RunMax(path, ix, n - 1), ix[n])
(* the factor of the i-th summation index at jump j, and of the latest jump     *)
(* among the first i indices (i >= 2) when that is jump j                      *)
Own(path, j, l, o, i) == FMul(FMul(FPow(path[j].E, l[i]), FPow(path[j].S, o[i])), path[j].J)
Late(path, j, p, q, i) == IF i = 1 THEN FInt(1)
                          ELSE FMul(FPow(path[j].E, p[i - 1]), FPow(path[j].S, q[i - 1]))
FZ(path, l, o, p, q) ==
    IF Len(l) = 0 THEN FInt(1)
    ELSE LET I == 1 .. Len(l)  J == 1 .. Len(path)
             own == TLCEval([i \in I |-> TLCEval([j \in J |-> Own(path, j, l, o, i)])])
             late == TLCEval([i \in I |-> TLCEval([j \in J |-> Late(path, j, p, q, i)])])
             OneTuple(ix) == FProd([i \in I |-> IF i = 1 THEN own[1][ix[1]]
                                ELSE FMul(own[i][ix[i]], late[i][RunMax(path, ix, i)])])
         IN  FoldSet(LAMBDA ix, acc : FAdd(acc, OneTuple(ix)), FInt(0), [I -> J])
Zeros(n) == [i \in 1 .. n |-> 0]

(* ---- one factor of a term -------------------------------------------------*)
Factor(env, nm, x) ==
    IF nm = T0Name THEN FProd([i \in DOMAIN x |-> IF x[i][3] = 0 THEN FInt(1)
                                 ELSE FPow(Rate2(env, x[i][1], x[i][2]), -x[i][3])])
    ELSE IF nm = T1Name THEN (IF x[3] = 0 THEN FInt(1)
                              ELSE FPow(Rate2(env, x[1], x[2]), -x[3]))
    ELSE IF nm \in Pairs
    THEN IF nm = "e^{-(n1*k1+n2*k2)h}" THEN FMul(FPow(env.e1, -x[1]), FPow(env.e2, -x[2]))
         ELSE IF nm = "e^{(m_4*k1+m_6*k2)(n-1)h}" THEN FMul(FPow(env.es1, x[1]), FPow(env.es2, x[2]))
         ELSE FMul(FPow(env.e1, x[1]), FPow(env.e2, x[2]))
    ELSE IF nm = "J_{1:n}" THEN FProd([i \in DOMAIN x |-> FPow(env.path[i].J, x[i])])
    ELSE IF x = 0 THEN FInt(1) ELSE FPow(Base(env, nm), x)

(* positions of a key that carry a factor; a jump group counts once           *)
Posns(kf) == { i \in DOMAIN kf : kf[i] \notin (JumpNames \ {"l_{1:n}"}) }
(* the exponent at a position: for a jump group the whole group <<l, o, p, q>> *)
Expo(kf, key, i) ==
    IF kf[i] # "l_{1:n}" THEN key[i]
    ELSE IF i + 1 <= Len(kf) /\ kf[i + 1] = "o_{2:n}"
         THEN << key[i], Zeros(Len(key[i])), key[i + 1], Zeros(Len(key[i + 1])) >>
         ELSE << key[i], key[i + 1], key[i + 2], key[i + 3] >>
FactorAt(env, kf, i, x) ==
    IF kf[i] = "l_{1:n}" THEN FZ(env.path, x[1], x[2], x[3], x[4]) ELSE Factor(env, kf[i], x)

(* value of the formula: sum over the terms of w(term) * coefficient * factors *)
Tab(env, kf, ts) ==
    TLCEval([i \in Posns(kf) |->
        TLCEval([x \in { Expo(kf, ts[j][2], i) : j \in DOMAIN ts } |-> FactorAt(env, kf, i, x)])])
One == FInt(1)
Times(a, b) == IF b = One THEN a ELSE FMul(a, b)
TermVal(tab, kf, t) ==
    FoldSet(LAMBDA i, acc : Times(acc, tab[i][Expo(kf, t[2], i)]), t[1], DOMAIN tab)
ValW(env, kf, ts, W(_)) ==
    LET tab == Tab(env, kf, ts)
    IN  FoldSeq(LAMBDA t, acc : FAdd(acc, FMul(W(t), TermVal(tab, kf, t))), FInt(0), ts)
TermValues(env, kf, ts) ==
    LET tab == Tab(env, kf, ts) IN [i \in DOMAIN ts |-> TermVal(tab, kf, ts[i])]
Value(env, kf, ts) ==
    LET tab == Tab(env, kf, ts)
    IN  FoldSeq(LAMBDA t, acc : FAdd(acc, TermVal(tab, kf, t)), FInt(0), ts)

(* ---- derivatives: d factor / factor with respect to a parameter ------------*)
DLog(env, nm, x, wrt) ==
    CASE nm = "e^{-kh}" -> IF wrt = "k" THEN FMul(FInt(-x), env.t) ELSE FInt(0)
      [] nm = "k^{-}" -> IF wrt = "k" THEN FDiv(FInt(-x), env.k1) ELSE FInt(0)
      [] nm = "rho" -> IF wrt = "rho" THEN FDiv(FInt(x), env.rho) ELSE FInt(0)
      [] nm = "sqrt(1-rho^2)" ->       \* d(1-rho^2)^{x/2} = -x rho (1-rho^2)^{x/2-1} d rho
            IF wrt = "rho" THEN FDiv(FMul(FInt(-x), env.rho), FMul(env.srho, env.srho)) ELSE FInt(0)
      [] nm = "e^{-(n1*k1+n2*k2)h}" ->
            IF wrt = "k1" THEN FMul(FInt(-x[1]), env.t)
            ELSE IF wrt = "k2" THEN FMul(FInt(-x[2]), env.t) ELSE FInt(0)
      [] nm = T0Name ->
            IF wrt \in {"k1", "k2"}
            THEN FSum([i \in DOMAIN x |->
                   IF x[i][3] = 0 THEN FInt(0)
                   ELSE FDiv(FInt(-x[i][3] * (IF wrt = "k1" THEN x[i][1] ELSE x[i][2])),
                             Rate2(env, x[i][1], x[i][2]))])
            ELSE FInt(0)
      [] OTHER ->
            IF nm = wrt /\ nm \in {"mu", "theta", "theta1", "theta2", "sigma_v", "sigma_v1",
                                   "sigma_v2", "lambda", "mu_j", "sigma_j"}
            THEN FDiv(FInt(x), Base(env, nm)) ELSE FInt(0)
Derivative(env, kf, ts, wrt) ==
    ValW(env, kf, ts, LAMBDA t : FSum([i \in DOMAIN kf |-> DLog(env, kf[i], t[2][i], wrt)]))
============================================================================
