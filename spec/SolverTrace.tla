---------------------------- MODULE SolverTrace ----------------------------
(* Trace validation of solver runs.  A trace is the configuration of one run *)
(* of a real solver, what its callback was given in every iteration and what *)
(* it returned.  The specification's state is the set S of states of the     *)
(* solver's transition system that agree with everything observed so far.    *)
EXTENDS Solvers, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tid, l, S
vars == <<tid, l, S>>

Tr == Traces[tid]
C  == Tr.c
Ev == Tr.ev[l]
Is(k) == l <= Len(Tr.ev) /\ Ev.e = k
Check(clause, ok) == IF ok THEN TRUE ELSE PrintT(<<"FAIL", tid, l, clause>>)
Step == l' = l + 1 /\ UNCHANGED tid

\* (nothing is claimed about the digits of a run that blows up according to the specification)
Blown(want) == \E i \in DOMAIN want : ~VFinite(want[i]) \/ RLt("1e9", VMaxAbs(want[i]))
Match(obs, want) == /\ Len(obs) = Len(want)
                    /\ Blown(want) \/ \A i \in DOMAIN obs : Len(obs[i]) = Len(want[i]) /\ VFinite(obs[i]) /\ VClose(obs[i], want[i], C.acc_tol)
\* too many undecided comparisons in a row: the rest of the run is not judged
Cap(T) == IF Cardinality(T) <= 24 THEN T ELSE {}

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ S = IF Traces[tid].c.alg = "none" THEN {} ELSE {Start(Traces[tid].c)}

\* one completed iteration, with what the callback was given
Adv(s) == IF MustStop(C, s) THEN {} ELSE Steps(C, s)
\* SR3 has no callback: its history is that of runs with the limits 1, 2, ..., and
\* a run that has stopped returns the same point under every larger limit
Rest(s) == IF C.alg = "SR3" /\ MayStop(C, s) THEN {s} ELSE {}
Iterate == /\ Is("it")
           /\ LET all == UNION {Steps(C, s) : s \in S}
                  ok  == {t \in UNION {Adv(s) \cup Rest(s) : s \in S} : Blind(t) \/ Match(Ev.obs, Obs(C, t))}
              IN /\ IF ok # {} \/ S = {} THEN TRUE
                    ELSE Check(IF \E t \in all : Match(Ev.obs, Obs(C, t)) THEN "continued after its stopping rule was met" ELSE "iterate", FALSE)
                 /\ S' = Cap(IF ok # {} THEN ok ELSE all)
           /\ Step
\* the run returned
End == /\ Is("end")
       /\ LET may == {s \in S : s.k = C.niter \/ Blind(s) \/ MayStop(C, s)} IN
          /\ Check("stopped without reason", S = {} \/ may # {})
          /\ Check("returned value", S = {} \/ \E s \in S : Blind(s) \/ Match(Ev.ret, Ret(C, s)))
       /\ UNCHANGED S /\ Step
\* segmentation: the class of every pixel is one of its most probable ones
Classes == /\ Is("classes")
           /\ Check("class", \A p \in DOMAIN Ev.cls : \A j \in DOMAIN Ev.prob[p] :
                      RLe(Ev.prob[p][j], Ev.prob[p][Ev.cls[p] + 1] ++ "1e-12"))
           /\ UNCHANGED S /\ Step
Same == /\ Is("same")
        /\ Check(Ev.why, Len(Ev.a) = Len(Ev.b) /\ (IF REq(Ev.tol, 0) THEN Ev.a = Ev.b ELSE VClose(Ev.a, Ev.b, Ev.tol)))
        /\ UNCHANGED S /\ Step
Keep == Is("keep") /\ Check(Ev.why, Ev.a = Ev.b) /\ UNCHANGED S /\ Step
\* two lists of vectors that must be the same up to the rounding of their linear algebra
Alike == /\ Is("alike")
         /\ Check(Ev.why, Ev.a = Ev.b \/ (Len(Ev.a) = Len(Ev.b) /\ \A i \in DOMAIN Ev.a : Ev.a[i] = Ev.b[i] \/ (Len(Ev.a[i]) = Len(Ev.b[i]) /\ VClose(Ev.a[i], Ev.b[i], "1e-10"))))
         /\ UNCHANGED S /\ Step
\* anything else: an exception, a hang (allowed only where the recursion itself is undefined)
Boom == Is("boom") /\ Check("unexpected " \o Ev.what, \E s \in S : Undefined(C, s)) /\ UNCHANGED S /\ Step

Next == Iterate \/ End \/ Classes \/ Same \/ Keep \/ Alike \/ Boom
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Tr.ev) + 1)
=============================================================================
