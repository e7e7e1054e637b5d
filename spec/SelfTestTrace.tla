--------------------------- MODULE SelfTestTrace ---------------------------
(* Histories of self-tests.  A gradient test draws a coordinate the caller    *)
(* does not see: its verdict must be admissible for one of the coordinates it *)
(* may draw, and over a long history every verdict that some coordinate       *)
(* forces must have been given.                                               *)
EXTENDS SelfTests, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, seen     \* seen: the verdicts given so far on the operator under test
vars == <<tid, l, seen>>
Tr == Traces[tid]
Ev == Tr.ev[l]
T  == Tr.c
Is(k) == l <= Len(Tr.ev) /\ Ev.e = k
Check(clause, ok) == IF ok THEN TRUE ELSE PrintT(<<"FAIL", tid, l, clause>>)
Step == l' = l + 1 /\ UNCHANGED tid
Init == tid \in 1..Len(Traces) /\ l = 1 /\ seen = {}
\* a verdict as observed: returned, or raised when asked to
Given(ev, err) == CASE ev.got = "True" -> {TRUE} [] ev.got = "False" /\ ~ev.raises -> {FALSE} [] ev.got = err /\ ev.raises -> {FALSE} [] OTHER -> {}
May == {i \in DOMAIN T.a : T.draw[i]}
\* (TLC re-evaluates definitions: the admissible answers are fetched once per step)
Moreau == /\ Is("mtest")
          /\ Check("verdict of the Moreau test", \E v \in Given(Ev, "ValueError") : v \in MoreauAnswers(T, Ev.x, Ev.tau, Ev.tol))
          /\ UNCHANGED seen /\ Step
Grad == /\ Is("gtest")
        /\ Check("form of the verdict of the gradient test", Given(Ev, "AssertionError") # {})
        /\ Check("verdict of the gradient test", \A v \in Given(Ev, "AssertionError") : \E i \in May : v \in GradAnswers(T, T.z, i, T.delta, T.rtol, T.atol))
        /\ seen' = seen \cup Given(Ev, "AssertionError") /\ Step
\* after many tests: what a coordinate forces has come up
Done == /\ Is("done")
        /\ Check("an error in one entry is never found", (\E i \in May : GradAnswers(T, T.z, i, T.delta, T.rtol, T.atol) = {FALSE}) => FALSE \in seen)
        /\ Check("a right entry is never accepted", (\E i \in May : GradAnswers(T, T.z, i, T.delta, T.rtol, T.atol) = {TRUE}) => TRUE \in seen)
        /\ seen' = {} /\ Step
Keep == Is("keep") /\ Check(Ev.why, Ev.a = Ev.b) /\ UNCHANGED seen /\ Step
Boom == Is("boom") /\ Check("unexpected " \o Ev.what, FALSE) /\ UNCHANGED seen /\ Step
Next == Moreau \/ Grad \/ Done \/ Keep \/ Boom
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Tr.ev) + 1) /\ seen \subseteq BOOLEAN
=============================================================================
