----------------------------- MODULE FrameTrace -----------------------------
(* Histories of library calls seen from the caller's memory.  mem lists the   *)
(* contents (as digests of type, shape and bytes) of every array the caller   *)
(* has handed over, in the order it did; only the caller writes there.        *)
EXTENDS Vec, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, mem
vars == <<tid, l, mem>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Is(k) == l <= Len(Tr.ev) /\ Ev.e = k
Check(clause, ok) == IF ok THEN TRUE ELSE PrintT(<<"FAIL", tid, l, clause>>)
Step == l' = l + 1 /\ UNCHANGED tid
Init == tid \in 1..Len(Traces) /\ l = 1 /\ mem = <<>>
\* the caller hands over further arrays
Hold == Is("hold") /\ mem' = mem \o Ev.mem /\ Step
\* the library runs: nothing of the caller's changes
Lib == /\ Is("lib")
       /\ \A i \in DOMAIN mem : Check(Ev.names[i] \o " changed by " \o Ev.what, Ev.mem[i] = mem[i])
       /\ Len(Ev.mem) = Len(mem) /\ mem' = Ev.mem /\ Step
\* the caller overwrites a result: its other arrays do not change.  A map that returned its very
\* input (free: the places of that input), as projections of inside points do, is exempt, and so is
\* the starting point of a solver that passed through such maps only
Scribble == /\ Is("scribble")
            /\ \A i \in DOMAIN mem : Check("writing on the result of " \o Ev.what \o " changed " \o Ev.names[i],
                                           Ev.mem[i] = mem[i] \/ \E j \in DOMAIN Ev.free : Ev.free[j] = i)
            /\ Len(Ev.mem) = Len(mem) /\ mem' = Ev.mem /\ Step
\* the caller writes on its own array number i
Own == Is("own") /\ mem' = [mem EXCEPT ![Ev.i] = Ev.to] /\ Step
\* the same call again, after the caller overwrote the earlier result
Again == Is("again") /\ Check("a later " \o Ev.what \o " depends on what the caller did with an earlier result", Len(Ev.a) = Len(Ev.b) /\ (Ev.a = Ev.b \/ VClose(Ev.a, Ev.b, Ev.tol)))
         /\ UNCHANGED mem /\ Step
Boom == Is("boom") /\ Check("unexpected " \o Ev.what, FALSE) /\ UNCHANGED mem /\ Step
Next == Hold \/ Lib \/ Scribble \/ Own \/ Again \/ Boom
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Tr.ev) + 1)
=============================================================================
