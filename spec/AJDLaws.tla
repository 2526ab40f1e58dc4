------------------------------ MODULE AJDLaws ------------------------------
(***************************************************************************)
(* What the moment machine itself must satisfy, whatever the library does:   *)
(* the specification is model-checked against the theory of the processes    *)
(* it describes, over all short behaviours from several models.             *)
(***************************************************************************)
EXTENDS AJDMachine

CONSTANTS Depth, Order
VARIABLE n
lvars == <<vars, n>>

Base == [k1 |-> 1021, k2 |-> 2039, th1 |-> 37, th2 |-> 411, s1 |-> 53, s2 |-> 97, mu |-> 700, rho |-> 31,
         lam |-> 0, muv |-> 0, mus |-> 0, vs |-> 0, rhoJ |-> 0, lam2 |-> 0, mus2 |-> 0, vs2 |-> 0]
(* contemporaneous correlated jumps; independent price jumps                  *)
Joint == [Base EXCEPT !.lam = 777, !.muv = 13, !.mus = 905, !.vs = 222, !.rhoJ = 45]
PriceJ == [Base EXCEPT !.lam2 = 333, !.mus2 = 17, !.vs2 = 4321]
Both == [Joint EXCEPT !.lam2 = 333, !.mus2 = 17, !.vs2 = 4321]
Det == [kind |-> "det", v1 |-> 1234, v2 |-> 5678]
Stat == [kind |-> "stat"]
Pts == { [e1 |-> 29, e2 |-> 3571, t |-> 311], [e1 |-> 11213, e2 |-> 87, t |-> 1999] }
Later == [e1 |-> 4441, e2 |-> 777, t |-> 60]
Starts == { <<"price", 1, Base, Det, Point0>>, <<"price", 1, Both, Det, Point0>>,
            <<"price", 1, Joint, Stat, Point0>>, <<"price", 2, PriceJ, Det, Point0>>,
            <<"price", 2, Base, Stat, Point0>>, <<"ito1", 1, Base, Det, Point0>>,
            <<"ito1", 1, Base, Det, Later>>, <<"ito1", 1, Joint, Det, Point0>>,
            <<"ito1", 1, Joint, Det, Later>>, <<"ito2", 2, Base, Det, Point0>>, <<"ito2", 2, Base, Det, Later>> }

(* ---- behaviours -------------------------------------------------------------*)
LInit == Init /\ n = 0
LNext == /\ n < Depth /\ n' = n + 1
         /\ \/ mode = "none" /\ \E s \in Starts : Start(s[1], s[2], s[3], s[4], s[5], Order)
            \/ mode # "none" /\ at = Point0 /\ \E p \in Pts : Place(p)
            \/ mode # "none" /\ at # Point0 /\ (Commit \/ Observe)
            \/ mode # "none" /\ at # Point0 /\ (mode = "ito1" => par.lam = 0) /\ mode # "ito2" /\ JumpAt(4321)
LSpec == LInit /\ [][LNext]_lvars

(* ---- tools ------------------------------------------------------------------*)
On == mode # "none"
S0 == IF mode = "ito2" THEN { al \in (0 .. 1) \X (0 .. 1) \X (0 .. 2) \X (0 .. 2) \X (0 .. 1) \X (0 .. 2) \X (0 .. 2) : Deg(al) <= Order }
      ELSE IF mode = "ito1" /\ par.lam # 0
      THEN { al \in (0 .. 1) \X (0 .. Order) \X (0 .. 1) \X (0 .. 2) \X (0 .. 2) \X (0 .. 2) \X (0 .. 1) : Deg(al) <= Order }
      ELSE Need(mode, env.nv, Order)
Tab(e, S) == FoldSet(LAMBDA al, acc : Solve(e, al, acc), MemoInit(mode), S)
At(tab, al, p) == QEval(tab[al], p.e1, p.e2, p.t)
After(p, q) == [e1 |-> Mul(p.e1, q.e1), e2 |-> Mul(p.e2, q.e2), t |-> Add(p.t, q.t)]
V(i) == [j \in 1 .. Dim(mode) |-> IF j = 1 THEN i ELSE 0]

(* ---- laws -------------------------------------------------------------------*)
(* a total mass of one, always                                                 *)
Mass == On => ValIn(Closed({Zero(mode)}), Zero(mode)) = 1
(* every moment solves its equation: m' = E[A x^al] (formal derivative), and     *)
(* starts at the moment of the initial state                                    *)
Kolmogorov == On => LET tab == TLCEval(Tab(env, S0)) IN
    \A al \in S0 :
      /\ QDiff(tab[al], par.k1, par.k2)
           = LET ts == Active(env.gen, al) IN
             QLin([i \in 1 .. Len(ts) |-> [c |-> ts[i].c, s |-> ts[i].a, q |-> tab[ts[i].tgt]]])
      /\ QEval(tab[al], 1, 1, 0) = InitVal(env.init, env.nv, al)
(* stopping at a time and going on is not stopping (also after a jump at size 0) *)
Restartable == mode = "price" \/ (mode = "ito1" /\ par.lam = 0)
Semigroup == On /\ Restartable /\ at # Point0 =>
    LET whole == TLCEval(Tab(env, S0))
        now == TLCEval([al \in S0 |-> At(whole, al, at)])
        e2 == [env EXCEPT !.gen = TLCEval(Gen(mode, par, env.nv, ClkNow, ord)), !.init = [kind |-> "map", f |-> now]]
        rest == TLCEval(Tab(e2, S0))
    IN \A q \in Pts : \A al \in S0 : At(rest, al, q) = At(whole, al, After(at, q))
(* jumps at the same time add up; a jump of nothing is no jump                    *)
PureJump == mode = "ito1" \/ (mode = "price" /\ par.mus = 0 /\ par.vs = 0)
JumpsAdd == On /\ Restartable /\ PureJump /\ at # Point0 =>
    LET f == Now IN
    /\ Shifted(f, 0) = f
    /\ Shifted(Shifted(f, 17), 2020) = Shifted(f, 2037)
(* the stationary law is stationary                                              *)
Stationary == On /\ mode = "price" /\ env.init.kind = "map" /\ n = 2 =>
    LET S == { al \in S0 : al[3] = 0 /\ al[4] = 0 }
        tab == Tab(env, S)
    IN \A al \in S : At(tab, al, at) = env.init.f[al]
(* an observed return keeps its moments, and its joint moments with the variance   *)
ObserveKeeps == On /\ mode = "price" /\ at # Point0 =>
    LET f == Now  g == Observed(f) IN
    /\ \A i \in 0 .. Order : g[<<0, 0, 0, i>>] = f[<<0, 0, i, 0>>] /\ (i > 0 => g[<<0, 0, i, 0>>] = 0)
    /\ \A i \in 0 .. Order : g[<<i, 0, 0, 0>>] = f[<<i, 0, 0, 0>>]
(* v_t e^{kt} = theta (e^{kt} - e^{ks}) + e^{ks} v_s + sigma IE + IEZ  (absolute times) *)
Fresh1 == mode = "ito1" /\ env.init.kind = "det"
Tri(m) == { x \in (0 .. m) \X (0 .. m) \X (0 .. m) : x[1] + x[2] + x[3] = m }
Multi(m, x) == Mul(CombP(m, x[1]), CombP(m - x[1], x[2]))
Flow == On /\ Fresh1 => \A m \in 1 .. Order :
    LET tab == Tab(env, { V(m) } \cup { <<0, x[2], 0, 0, x[3], 0, 0>> : x \in Tri(m) })
        et == Mul(clk.e1, at.e1)
        c == Add(Mul(par.th1, Sub(et, clk.e1)), Mul(clk.e1, Det.v1))
    IN Mul(PowN(et, m), At(tab, V(m), at))
         = SumOver(Tri(m), LAMBDA x : Mul(Mul(Multi(m, x), Mul(PowN(c, x[1]), PowN(par.s1, x[2]))),
                                          At(tab, <<0, x[2], 0, 0, x[3], 0, 0>>, at)))
(* the return from the integrals: with IV = (v_s - v_t + k theta t + sigma I + IZ)/k,
     y = mu t - IV/2 + rho I + sqrt(1-rho^2) IS + IZS + rhoJ IZ                       *)
YParts(m) == { x \in (0 .. m) \X (0 .. m) \X (0 .. m) \X (0 .. m) \X (0 .. m) \X (0 .. m) :
                 x[1] + x[2] + x[3] + x[4] + x[5] + x[6] = m /\ x[4] % 2 = 0 }
RECURSIVE Multinomial(_, _)
Multinomial(m, x) == IF Len(x) = 0 THEN 1 ELSE Mul(CombP(m, Head(x)), Multinomial(m - Head(x), Tail(x)))
ReturnFromIntegrals == On /\ Fresh1 /\ clk = Point0 => \A m \in 1 .. Order :
    LET h == Inv(Mul(2, par.k1))
        pe == [gen |-> TLCEval(Gen("price", par, 1, Point0, Order)), nv |-> 1, k1 |-> par.k1, k2 |-> par.k2, init |-> env.init]
        y == FoldSet(LAMBDA al, acc : Solve(pe, al, acc), (<<0, 0, 0, 0>> :> QConst(1)), { <<0, 0, m, 0>> })
        mon(x) == <<x[2], 0, x[3], x[4], 0, x[5], x[6]>>
        tab == Tab(env, { mon(x) : x \in YParts(m) })
        c0 == Sub(Mul(Sub(par.mu, Mul(par.th1, Inv(2))), at.t), Mul(h, Det.v1))
        cI == Sub(par.rho, Mul(h, par.s1))
        cZ == Sub(par.rhoJ, h)
    IN QEval(y[<<0, 0, m, 0>>], at.e1, at.e2, at.t)
         = SumOver(YParts(m), LAMBDA x :
             Mul(Mul(Multinomial(m, x), Mul(PowN(c0, x[1]), PowN(h, x[2]))),
                 Mul(Mul(Mul(PowN(cI, x[3]), PowN(Sub(1, Mul(par.rho, par.rho)), x[4] \div 2)), PowN(cZ, x[5])),
                     At(tab, mon(x), at))))
(* a second factor that is nothing changes nothing; two factors are independent    *)
Factors == On /\ mode = "ito2" /\ clk = Point0 =>
    LET e1 == [gen |-> TLCEval(Generator(Ito1(par, clk.e1), << >>, Order)), nv |-> 1, k1 |-> par.k1, k2 |-> par.k2, init |-> env.init]
        S == { al \in S0 : al[2] = 0 /\ al[5] = 0 /\ al[6] = 0 /\ al[7] = 0 }
        one(al) == <<al[1], al[3], al[4], 0, 0, 0, 0>>
        t1 == FoldSet(LAMBDA al, acc : Solve(e1, one(al), acc), MemoInit("ito1"), S)
        both == { al \in S0 : al[7] = 0 }
        A(al) == <<al[1], 0, al[3], al[4], 0, 0, 0>>
        B(al) == <<0, al[2], 0, 0, al[5], al[6], 0>>
        t2 == Tab(env, UNION { {al, A(al), B(al)} : al \in both })
    IN /\ \A al \in S : At(t2, al, at) = At(t1, one(al), at)
       /\ \A al \in both : At(t2, al, at) = Mul(At(t2, A(al), at), At(t2, B(al), at))
(* naming the factors the other way round names the moments the other way round     *)
Swapped(p) == [p EXCEPT !.k1 = p.k2, !.k2 = p.k1, !.th1 = p.th2, !.th2 = p.th1, !.s1 = p.s2, !.s2 = p.s1]
Symmetric == On /\ mode = "ito2" =>
    LET q == Swapped(par)
        e == [gen |-> TLCEval(Generator(Ito2(q, clk.e2, clk.e1), << >>, Order)), nv |-> 2, k1 |-> q.k1, k2 |-> q.k2,
              init |-> [Det EXCEPT !.v1 = Det.v2, !.v2 = Det.v1]]
        sw(al) == <<al[2], al[1], al[5], al[6], al[3], al[4], al[7]>>
        t1 == Tab(env, S0)
        t2 == Tab(e, { sw(al) : al \in S0 })
        f == [e1 |-> at.e2, e2 |-> at.e1, t |-> at.t]
    IN env.init.kind = "det" => \A al \in S0 : At(t1, al, at) = At(t2, sw(al), f)
(* known moments                                                                   *)
Textbook == On /\ mode = "price" /\ n = 2 /\ env.nv = 1 /\ env.init.kind = "det" =>
    LET tab == Tab(env, {V(1), V(2), <<0, 0, 1, 0>>})
        em == Inv(at.e1)                                   \* e^{-kt}
        long == Add(par.th1, Mul(Mul(par.lam, par.muv), Inv(par.k1)))
        mean == Add(long, Mul(Sub(Det.v1, long), em))
        iv == Add(Mul(long, at.t), Mul(Mul(Sub(Det.v1, long), Sub(1, em)), Inv(par.k1)))
        jump == Add(Mul(par.lam, Add(par.mus, Mul(par.rhoJ, par.muv))), Mul(par.lam2, par.mus2))
    IN /\ At(tab, V(1), at) = mean
       /\ At(tab, <<0, 0, 1, 0>>, at) = Add(Mul(Add(par.mu, jump), at.t), Neg(Mul(Inv(2), iv)))
       /\ par.lam = 0 => Sub(At(tab, V(2), at), Mul(mean, mean))
            = Add(Mul(Mul(Mul(Det.v1, Mul(par.s1, par.s1)), Inv(par.k1)), Sub(em, Mul(em, em))),
                  Mul(Mul(Mul(par.th1, Mul(par.s1, par.s1)), Inv(Mul(2, par.k1))), Mul(Sub(1, em), Sub(1, em))))
SelfRate == On => \A al \in S0 : SelfOK(env, al)
============================================================================
