------------------------------ MODULE OpTrace ------------------------------
(* Trace validation of calls made on proximal operators.                     *)
(* A trace is a finite history of calls on one or more operator instances,   *)
(* recorded from the real library.  The specification's state is the number  *)
(* of proximal calls each instance has served (the only state an operator    *)
(* may have as far as its results are concerned); every call is one action,  *)
(* enabled in every state, whose observable result is fixed by ProxLib.      *)
EXTENDS ProxLib, Json, IOUtils, Refusals

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid,   \* which trace
          l,     \* next event of the trace
          cnt    \* cnt[i]: proximal calls served by instance i
vars == <<tid, l, cnt>>

Tr == Traces[tid]
Ev == Tr.ev[l]
Op == Tr.ops[Ev.o]                  \* descriptor of the instance the event is about

Is(k) == l <= Len(Tr.ev) /\ Ev.e = k
\* verdict: a failing clause is reported and the history continues, so that one
\* run reports every failure
Check(clause, ok) == IF ok THEN TRUE ELSE PrintT(<<"FAIL", tid, l, clause>>)
Serve == cnt' = [cnt EXCEPT ![Ev.o] = @ + 1]
Stay  == UNCHANGED cnt
Step  == l' = l + 1 /\ UNCHANGED tid
Well(y, n) == Len(y) = n /\ VFinite(y)

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ cnt = [i \in DOMAIN Traces[tid].ops |-> 0]

\* p = prox(x, tau)
CallProx == /\ Is("prox")
            /\ Check("prox", Well(Ev.y, Len(Ev.x)) /\
                  LET o == Eff(Op, cnt[Ev.o] + 1) IN
                  IF "cert" \in DOMAIN Ev THEN CertOK(o, Ev.x, Ev.tau, Ev.y, Ev.cert, Ev.tol)
                  ELSE ProxOK(o, Ev.x, Ev.tau, Ev.y, Ev.tol))
            /\ Serve /\ Step
\* p = prox(x, tau) of an inexact instance at a call where nothing is claimed about y
CallProxAny == Is("proxany") /\ Check("proxany", Len(Ev.y) = Len(Ev.x)) /\ Serve /\ Step
\* d = proxdual(x, tau): by Moreau's decomposition (x - d)/tau is a proximal point
\* of x/tau with step 1/tau.  ser: served through the proximal map (counts as a call)
\* the result of the other map, recovered from x - tau p = y: where zero entries are counted,
\* the rounding errors of the difference are zeros
Tidy(o, p, x, tol) == IF o.k \notin {"L0Ball", "L10Ball", "QECI"} THEN p ELSE LET e == RMul(RMul("0.01", tol), Norm(x)) IN Force([i \in DOMAIN p |-> IF RLe(RAbs(p[i]), e) THEN R(0) ELSE R(p[i])])
CallDual == /\ Is("dual")
            /\ LET o == Eff(Op, cnt[Ev.o] + 1) IN
               Check("proxdual", Well(Ev.y, Len(Ev.x)) /\
                  (IF "cert" \in DOMAIN Ev
                   THEN CertOK(o, VScale(1 // R(Ev.tau), Ev.x), 1 // R(Ev.tau), VScale(1 // R(Ev.tau), VSub(Ev.x, Ev.y)), Ev.cert, Ev.tol)
                   ELSE IF o.k = "Adj" THEN ProxOK(Eff(o.f, 0), Ev.x, Ev.tau, Ev.y, Ev.tol)
                   ELSE ProxOK(o, VScale(1 // R(Ev.tau), Ev.x), 1 // R(Ev.tau),
                               Tidy(o, VScale(1 // R(Ev.tau), VSub(Ev.x, Ev.y)), VScale(1 // R(Ev.tau), Ev.x), Ev.tol), Ev.tol)))
            /\ (IF Ev.ser THEN Serve ELSE Stay) /\ Step
\* v = f(x)
CallVal == /\ Is("val")
           /\ LET o == Eff(Op, cnt[Ev.o])  ok == NumOK(Ev.v, Val(o, Ev.x), Ev.tol) IN
              Check(IF ~ok /\ KnownVal(o, Ev.x, Ev.v, Ev.tol) THEN "value (known: " \o o.k \o ")" ELSE "value", ok)
           /\ Stay /\ Step
\* b = f(x) of a set: true inside (up to tight), false outside by more than loose
CallIn == /\ Is("in")
          /\ LET o == Eff(Op, cnt[Ev.o]) IN
             LET ok == (In(o, Ev.x, Ev.tight) => Ev.v) /\ (Ev.v => In(o, Ev.x, Ev.loose)) IN
             Check(IF ~ok /\ KnownIn(o, Ev.x, Ev.v, Ev.tight, Ev.loose) THEN "membership (known: " \o o.k \o " rows)" ELSE "membership", ok)
          /\ Stay /\ Step
\* g = grad(x), also checked against the values at neighbouring points when given
CallGrad == /\ Is("grad")
            /\ Check("grad", Well(Ev.y, Len(Ev.x)) /\ VClose(Ev.y, Grad(Eff(Op, cnt[Ev.o] + 1), Ev.x), Ev.tol))
            /\ (IF Ev.ser THEN Serve ELSE Stay) /\ Step
\* gradient of an operator without one of its own: of its envelope, x - env g is a proximal point
CallEnv == /\ Is("egrad")
           /\ Check("envelope gradient", Well(Ev.y, Len(Ev.x)) /\
                    LET o == Eff(Op, cnt[Ev.o] + 1)  p == VSub(Ev.x, VScale(Ev.env, Ev.y)) IN
                    IF "cert" \in DOMAIN Ev THEN CertOK(o, Ev.x, Ev.env, p, Ev.cert, Ev.tol) ELSE ProxOK(o, Ev.x, Ev.env, p, Ev.tol))
           /\ Serve /\ Step
\* x = prox(x, tau) + tau * proxdual(x/tau, 1/tau)
Moreau == /\ Is("moreau")
          /\ Check("moreau", Well(Ev.p, Len(Ev.x)) /\ Well(Ev.d, Len(Ev.x))
                             /\ VClose(Ev.x, VAdd(Ev.p, VScale(Ev.tau, Ev.d)), Ev.tol))
          /\ Stay /\ Step
\* the result of the n-th proximal call of an instance with a scheduled parameter, against that
\* of a new instance with the parameter fixed at the schedule's value at n
Nth == /\ Is("nth")
       /\ Check("value of the schedule at the call", Ev.n = cnt[Ev.o] + 1 /\ VClose(Ev.a, Ev.b, Ev.tol))
       /\ Serve /\ Step
\* two results that must agree (up to tol; 0: exactly)
Same == /\ Is("same")
        /\ Check(Ev.why, Len(Ev.a) = Len(Ev.b) /\ (IF REq(Ev.tol, 0) THEN Ev.a = Ev.b ELSE VClose(Ev.a, Ev.b, Ev.tol)))
        /\ Stay /\ Step
\* two named sequences of raw values (texts) that must be identical
Keep == /\ Is("keep")
        /\ Check(Ev.why, Ev.a = Ev.b)
        /\ Stay /\ Step
\* central difference of observed values d = (f(x+hu) - f(x-hu)) / 2h against <g, u>
Deriv == /\ Is("deriv")
         /\ Check("derivative", RClose(Ev.d, VDot(Ev.g, Ev.u), Ev.tol))
         /\ Stay /\ Step
\* an observed bound: a <= b (1 + tol) + tol
Leq == /\ Is("leq")
       /\ Check(Ev.why, RLe(Ev.a, (Ev.b ** (1 ++ Ev.tol)) ++ Ev.tol))
       /\ Stay /\ Step
\* invalid argument: must raise one of the documented errors, with no result
Reject == /\ Is("reject")
          /\ Check("reject", \E i \in DOMAIN Ev.want : Ev.want[i] = Ev.got)
          /\ Stay /\ Step
\* valid argument: must be accepted
Accept == /\ Is("accept")
          /\ Check("accept", Ev.got = "ok")
          /\ Stay /\ Step
\* a request (constructor, combinator, solver) whose arguments decide its validity;
\* what is refused produces nothing: no callback was made
Make == /\ Is("make")
        /\ Check(IF Refusal(Ev.c) = {} THEN "valid request refused" ELSE "invalid request not refused", OutcomeOK(Ev.c, Ev.got))
        /\ Check("refused before any result", Refusal(Ev.c) = {} \/ Ev.calls = 0)
        /\ Stay /\ Step
\* prox or proxdual called with a step, given as all its entries; a refused call leaves no trace
CallStep == /\ Is("step")
            /\ Check(IF StepRefused(Ev.tau) THEN "invalid step not refused" ELSE "valid step refused",
                     IF StepRefused(Ev.tau) THEN Ev.got = "ValueError" ELSE Ev.got = "ok")
            /\ (IF Ev.ser /\ ~StepRefused(Ev.tau) THEN Serve ELSE Stay) /\ Step
\* the proximal point of a sum of terms, or the nearest common point of several sets
CallSum == /\ Is("sum")
           /\ Check("certificate of the minimiser", SumCertOK(Op, Ev.x, Ev.tau, Ev.z, Ev.p, Ev.eps))
           /\ Check("prox of the sum", Well(Ev.y, Len(Ev.x)) /\ VClose(Ev.y, Ev.z, Ev.tol))
           /\ Serve /\ Step
\* the value of a sum: the total of the finite terms, or a truth value
CallSumVal == /\ Is("sumval")
              /\ Check("value of the sum", SumValOK(Op, Ev.x, Ev.got, Ev.v, Ev.tight, Ev.loose, Ev.tol))
              /\ Stay /\ Step
\* anything the specification has no action for (an exception, a hang, a wrong type)
Boom == /\ Is("boom")
        /\ Check("unexpected " \o Ev.what, FALSE)
        /\ Stay /\ Step

Next == CallProx \/ CallProxAny \/ CallDual \/ CallVal \/ CallIn \/ CallGrad \/ CallEnv \/ Moreau \/ Nth \/ Same \/ Keep \/ Deriv
        \/ Leq \/ CallSum \/ CallSumVal \/ Make \/ CallStep \/ Reject \/ Accept \/ Boom

Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Tr.ev) + 1) /\ \A i \in DOMAIN cnt : cnt[i] >= 0
=============================================================================
