------------------------------- MODULE Frame -------------------------------
(* Who may write where.  The caller's memory holds the point x and the data b *)
(* handed to the constructor; the library may keep a state w of its own (a    *)
(* warm start, a cached factor) and returns a reference to some cell.  The    *)
(* caller may overwrite the returned cell at any time.  Policies:             *)
(*   "copy"   results are fresh cells, w is the library's alone               *)
(*   "warm"   the library returns the cell it keeps as w                      *)
(*   "data"   the library returns the caller's data b where that is the value *)
(*   "inout"  the library works in the caller's point                         *)
(* TLC shows that only "copy" keeps arguments intact and later results right. *)
EXTENDS Naturals
CONSTANT Policy
VARIABLES mem,     \* contents of the cells: "good" (as first written) or "junk"
          out,     \* the cell the last call returned
          wrote,   \* cells the caller itself has overwritten
          ans      \* what the last call returned was right
vars == <<mem, out, wrote, ans>>
Cells == {"x", "b", "w", "r"}
Init == mem = [c \in Cells |-> "good"] /\ out = "r" /\ wrote = {} /\ ans = TRUE
\* a result is right if everything it is computed from is
Call == LET o == CASE Policy = "copy" -> "r" [] Policy = "warm" -> "w" [] Policy = "data" -> "b" [] Policy = "inout" -> "x"
            right == mem["x"] = "good" /\ mem["b"] = "good" /\ mem["w"] = "good"
        IN /\ out' = o /\ ans' = right
           /\ mem' = [mem EXCEPT ![o] = IF o = "x" THEN "junk" ELSE IF right THEN "good" ELSE "junk"]
           /\ UNCHANGED wrote
Scribble == /\ mem' = [mem EXCEPT ![out] = "junk"] /\ UNCHANGED <<out, wrote, ans>>
Next == Call \/ Scribble
Spec == Init /\ [][Next]_vars
Intact  == \A c \in {"x", "b"} : mem[c] = "good"
Answers == ans
=============================================================================
