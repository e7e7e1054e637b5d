------------------------------ MODULE Protocol ------------------------------
(* The iteration protocol common to all solvers, independent of what they    *)
(* compute: iterate k = 1, 2, ... is a fact of the problem alone; a run      *)
(* produces a prefix of these, hands each to the callback once, and returns  *)
(* the last.  The environment chooses the iteration limit, the first         *)
(* iteration at which the stopping rule holds (0: no rule; more than the     *)
(* limit: not met), and whether printing and callbacks are on.               *)
(* TLC checks the protocol's guarantees over all environments and prints     *)
(* every environment with its outcome; the conformance check realises each   *)
(* of them with every solver of the library.                                 *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Limits     \* iteration limits

VARIABLES limit, met, show, cb,   \* environment, fixed
          k,                      \* completed iterations
          log,                    \* iterates handed to the callback
          lines,                  \* iterations that printed a line
          ret                     \* iteration whose iterate was returned; -1: still running
vars == <<limit, met, show, cb, k, log, lines, ret>>

\* the print cadence used throughout: the first ten, the last ten, and every tenth of the way
Printed(i) == i < 10 \/ limit - i < 10 \/ (i % (limit \div 10)) = 0

Init == /\ limit \in Limits
        /\ met \in {0, 1, 2, 3, limit - 1, limit, limit + 1}
        /\ met >= 0 /\ met <= limit + 1
        /\ show \in BOOLEAN /\ cb \in BOOLEAN
        /\ k = 0 /\ log = <<>> /\ lines = {} /\ ret = -1

Met == met # 0 /\ k >= met
Iterate == /\ ret = -1 /\ k < limit /\ ~Met
           /\ k' = k + 1
           /\ log' = IF cb THEN Append(log, k + 1) ELSE log
           /\ lines' = IF show /\ Printed(k) THEN lines \cup {k + 1} ELSE lines
           /\ UNCHANGED <<limit, met, show, cb, ret>>
Return == /\ ret = -1 /\ (k = limit \/ Met)
          /\ ret' = k
          /\ PrintT(<<"ENV", limit, met, show, cb, k>>)
          /\ UNCHANGED <<limit, met, show, cb, k, log, lines>>
Next == Iterate \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Min(a, b) == IF a < b THEN a ELSE b
TypeOK   == k \in 0..limit /\ ret \in -1..limit
InOrder  == cb => log = [i \in 1..k |-> i]                     \* once per iteration, in order
Silent   == ~cb => log = <<>>
\* the outcome depends on the limit and the rule alone: not on printing or callbacks
Outcome  == ret # -1 => ret = (IF met = 0 THEN limit ELSE Min(limit, met))
LastSeen == (ret # -1 /\ cb) => ret = log[Len(log)]
NotEarly == (ret # -1 /\ ret < limit) => (met # 0 /\ ret = met)
NotLate  == met # 0 => k <= met
Stops    == <>(ret # -1)
=============================================================================
