------------------------------ MODULE SelfTest -----------------------------
(* Why a random self-test is a test at all.  err[i] tells whether the i-th    *)
(* entry of a gradient is wrong.  A helper draws a coordinate from Drawn      *)
(* again and again; Honest judges by the drawn entry, while "first" helpers   *)
(* judge by the first.  With fair draws, a wrong operator is found and a      *)
(* right one never is.                                                        *)
EXTENDS Naturals
CONSTANT N, Policy
Coord == 1..N
Drawn == IF Policy = "short" THEN 1..(N - 1) ELSE Coord
Judge(err, i) == IF Policy = "first" THEN ~err[1] ELSE IF Policy = "blind" THEN TRUE ELSE ~err[i]
VARIABLES err, last, i
vars == <<err, last, i>>
Init == err \in [Coord -> BOOLEAN] /\ last = "none" /\ i = 1
Draw(j) == i' = j /\ last' = (IF Judge(err, j) THEN "pass" ELSE "fail") /\ UNCHANGED err
Next == \E j \in Drawn : Draw(j)
Spec == Init /\ [][Next]_vars /\ \A j \in Drawn : SF_vars(Draw(j))
Wrong == \E j \in Coord : err[j]
NeverCryWolf == ~Wrong => last # "fail"
Found == Wrong => <>(last = "fail")
=============================================================================
