------------------------------ MODULE ConvTrace ------------------------------
(* Convergence of recorded solver runs.  A trace is a convex problem          *)
(*        minimise f(x) + g(A x)        (or a sum of several terms)           *)
(* together with a saddle point (x, y) of it -- checked below, not trusted -- *)
(* and the iterates a real solver reported.  The state holds the last iterate *)
(* and the values of the quantities that the solver's theory declares         *)
(* monotone or bounded; every iterate is one action, judged by these.         *)
EXTENDS ProxLib, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, s
vars == <<tid, l, s>>

Tr == Traces[tid]
C  == Tr.c
Ev == Tr.ev[l]
Is(k) == l <= Len(Tr.ev) /\ Ev.e = k
Check(clause, ok) == IF ok THEN TRUE ELSE PrintT(<<"FAIL", tid, l, clause>>)
Step == l' = l + 1 /\ UNCHANGED tid

Sqn(v)   == VDot(v, v)
D2(a, b) == LET d == VSub(a, b) IN VDot(d, d)
Mul(A, x)  == IF A = <<>> THEN x ELSE MatVec(A, x)    \* <<>>: the identity
MulT(A, y) == IF A = <<>> THEN y ELSE MatTVec(A, y)
Scl == 1 ++ (Sqn(C.x) ++ (Sqn(C.y) ++ Sqn(C.x0)))
NoMore(a, b, sc) == RLe(a, (b ** "1.000000001") ++ RMul("1e-9", sc))

\* objective on the domain of the indicators
RECURSIVE FV(_,_)
FV(o, x) == IF IsSet(o) THEN R(0)
            ELSE IF o.k = "Add" THEN FV(o.f, x) ++ VDot(o.v, x)
            ELSE IF o.k = "Post" THEN o.s ** FV(o.f, x)
            ELSE Val(o, x)
Obj1(x) == FV(C.f, x) ++ FV(C.g, Mul(C.A, x))

----------------------------------------------------------------------------
(* certificate: 0 in df(x) + A^T y and y in dg(Ax) (fixed points of both maps) *)
FixedBy(o, x, y) == VClose(Prox(o, VAdd(x, y), 1), x, "1e-8")      \* y in do(x)
Cert == IF C.alg \in {"PPXA", "CADMM", "GPG"}
        THEN /\ \A i \in DOMAIN C.fs : FixedBy(C.fs[i], C.x, C.ss[i])
             /\ RLe(VMaxAbs(Force([j \in DOMAIN C.x |-> VSum(Force([i \in DOMAIN C.fs |-> R(C.ss[i][j])]))])), "1e-8")
        ELSE /\ FixedBy(C.f, C.x, VNeg(MulT(C.A, C.y)))
             /\ FixedBy(C.g, Mul(C.A, C.x), C.y)

----------------------------------------------------------------------------
Us == VScale(C.tau, C.y)              \* scaled multiplier of ADMM-type solvers
\* the second observation of DR is its governing sequence
DRs == IF C.gfirst THEN VAdd(C.x, Us) ELSE VSub(C.x, Us)
PDnorm(dx, dy) == ((Sqn(dx) // C.tau) ++ (Sqn(dy) // C.mu)) -- RMul(2, VDot(MatVec(C.A, dx), dy))

\* state after observing obs (a sequence of vectors) in state t
After(t, obs) ==
  LET k1 == t.k + 1 IN
  CASE C.alg \in {"PP", "PG"} -> [k |-> k1, x |-> obs[1], V |-> D2(obs[1], C.x), D0 |-> t.D0, r |-> R(0)]
    [] C.alg = "HQS" -> [k |-> k1, x |-> obs[1], z |-> obs[2], r |-> R(0), D0 |-> t.D0,
                         V |-> (FV(C.f, obs[1]) ++ FV(C.g, obs[2])) ++ (D2(obs[1], obs[2]) // RMul(2, C.tau))]
    [] C.alg \in {"ADMM", "ADMML2"} ->
         LET a == Mul(C.A, obs[1])
             u == VSub(VAdd(t.u, a), obs[2])
             V == (IF C.gfirst THEN D2(a, Mul(C.A, C.x)) ELSE D2(obs[2], Mul(C.A, C.x))) ++ D2(u, Us)
         IN [k |-> k1, x |-> obs[1], z |-> obs[2], u |-> u, V |-> V, D0 |-> IF k1 = 1 THEN V ELSE t.D0,
             r |-> D2(IF C.gfirst THEN a ELSE obs[2], IF C.gfirst THEN Mul(C.A, t.x) ELSE t.z) ++ D2(a, obs[2])]
    [] C.alg = "LADMM" ->
         LET a == Mul(C.A, obs[1])
             u == VSub(VAdd(t.u, a), obs[2])
             V == ((D2(obs[1], C.x) // C.mu) -- (D2(a, Mul(C.A, C.x)) // C.tau)) ++ ((D2(obs[2], Mul(C.A, C.x)) ++ D2(u, Us)) // C.tau)
         IN [k |-> k1, x |-> obs[1], z |-> obs[2], u |-> u, V |-> V, D0 |-> IF k1 = 1 THEN V ELSE t.D0, r |-> R(0)]
    [] C.alg = "DR" -> [k |-> k1, x |-> obs[1], y |-> obs[2], V |-> D2(obs[2], DRs), D0 |-> t.D0, r |-> D2(obs[2], t.y)]
    [] C.alg = "PD" ->   \* gfirst: the pair of the theory is (x_{k-1}, y_k)
         LET px == IF C.gfirst THEN t.x ELSE obs[1]
             V == PDnorm(VSub(px, C.x), VSub(obs[2], C.y))
         IN [k |-> k1, x |-> obs[1], y |-> obs[2], px |-> px, V |-> V,
             D0 |-> IF C.gfirst /\ k1 = 1 THEN V ELSE t.D0, r |-> PDnorm(VSub(px, t.px), VSub(obs[2], t.y))]
    [] OTHER -> [k |-> k1, x |-> obs[1], V |-> R(0), D0 |-> R(0), r |-> R(0)]

Zv(n) == Zeros(n)
S0 == CASE C.alg \in {"PP", "PG"} -> [k |-> 0, x |-> C.x0, V |-> D2(C.x0, C.x), D0 |-> D2(C.x0, C.x), r |-> R(0)]
        [] C.alg = "HQS" -> [k |-> 0, x |-> C.x0, z |-> C.x0, V |-> R(0), D0 |-> R(0), r |-> R(0)]
        [] C.alg \in {"ADMM", "ADMML2", "LADMM"} -> [k |-> 0, x |-> C.x0, z |-> Mul(C.A, C.x0), u |-> Zv(Len(Mul(C.A, C.x0))), V |-> R(0), D0 |-> R(0), r |-> R(0)]
        [] C.alg = "DR" -> [k |-> 0, x |-> C.x0, y |-> C.x0, V |-> D2(C.x0, DRs), D0 |-> D2(C.x0, DRs), r |-> R(0)]
        [] C.alg = "PD" -> LET v == PDnorm(VSub(C.x0, C.x), VNeg(C.y)) IN
                           [k |-> 0, x |-> C.x0, px |-> C.x0, y |-> Zv(Len(C.A)), V |-> v, D0 |-> v, r |-> R(0)]
        [] OTHER -> [k |-> 0, x |-> C.x0, V |-> R(0), D0 |-> R(0), r |-> R(0)]

\* first iteration from which V is declared monotone
From == CASE C.alg \in {"HQS", "ADMM", "ADMML2", "LADMM"} -> 1
          [] C.alg = "PD" -> IF C.gfirst THEN 1 ELSE 0
          [] OTHER -> 0
Monotone(t, t1) == \/ t.k < From
                   \/ (C.alg = "PG" /\ C.acc # "none")
                   \/ NoMore(t1.V, t.V, Scl ++ RAbs(t.V))
\* objective gap after k iterations
Gap(t) ==
  CASE C.alg = "PP" -> NoMore(FV(C.f, t.x) -- FV(C.f, C.x), t.D0 // RMul(2, C.tau ** R(t.k)), Scl ++ RAbs(FV(C.f, C.x)))
    [] C.alg = "PG" /\ ~REq(C.eta, 1) -> TRUE
    [] C.alg = "PG" /\ C.acc = "none" -> NoMore(Obj1(t.x) -- Obj1(C.x), t.D0 // RMul(2, C.tau ** R(t.k)), Scl ++ RAbs(Obj1(C.x)))
    [] C.alg = "PG" -> NoMore(Obj1(t.x) -- Obj1(C.x), RMul(2, t.D0) // (C.tau ** R((t.k + 1) * (t.k + 1))), Scl ++ RAbs(Obj1(C.x)))
    [] OTHER -> TRUE
\* fixed-point residual after k iterations
Resid(t) ==
  CASE C.alg \in {"ADMM", "ADMML2"} -> t.k < 2 \/ NoMore(t.r, t.D0 // R(t.k - 1), Scl)
    [] C.alg = "DR" -> NoMore(t.r // Sq(C.eta), t.D0 // ((C.eta ** (2 -- C.eta)) ** R(t.k)), Scl)
    [] C.alg = "PD" -> t.k < From + 1 \/ NoMore(t.r, t.D0 // R(t.k - From), Scl ++ (Scl // RMin(C.tau, C.mu)))
    [] OTHER -> TRUE

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ s = [k |-> 0]

Begin == /\ Is("begin")
         /\ Assert(Cert, <<"wrong certificate", tid, C>>)
         /\ s' \in {S0}
         /\ Step
Good(obs) == \A i \in DOMAIN obs : VFinite(obs[i])
Iterate == /\ Is("it")
           /\ IF ~Good(Ev.obs) THEN Check("iterate is not finite", FALSE) /\ UNCHANGED s
              ELSE /\ s' \in {After(s, Ev.obs)}
                   /\ Check("distance to the minimiser increased", Monotone(s, s'))
                   /\ Check("objective gap above its bound", Gap(s'))
                   /\ Check("optimality residual above its bound", Resid(s'))
           /\ Step
\* the run ended, after an ample number of iterations, at x
Final == /\ Is("final")
         /\ Check("did not reach the minimiser", VFinite(Ev.x) /\ VClose(Ev.x, C.x, Ev.tol))
         /\ UNCHANGED s /\ Step
\* fixed point of the two maps of half-quadratic splitting
FinalH == /\ Is("finalh")
          /\ Check("did not reach a fixed point", VFinite(Ev.x) /\ VFinite(Ev.z) /\ VClose(Prox(C.g, Ev.x, C.tau), Ev.z, Ev.tol) /\ VClose(Prox(C.f, Ev.z, C.tau), Ev.x, Ev.tol))
          /\ UNCHANGED s /\ Step
\* an iterate of a run started at the solution
Stay == /\ Is("stay")
        /\ Check("left the minimiser", VFinite(Ev.x) /\ VClose(Ev.x, C.x, Ev.tol))
        /\ UNCHANGED s /\ Step
Boom == Is("boom") /\ Check("unexpected " \o Ev.what, FALSE) /\ UNCHANGED s /\ Step

Next == Begin \/ Iterate \/ Final \/ FinalH \/ Stay \/ Boom
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Tr.ev) + 1)
=============================================================================
