------------------------------- MODULE History -------------------------------
(* Call histories over two instances of an operator.  What an instance does   *)
(* at a call depends on its own number of served proximal calls only (through *)
(* scheduled parameters).  A history is a sequence of calls; TLC enumerates   *)
(* every history of Depth calls, checks that counting is a matter of the      *)
(* instance's own calls (interleaving with the other instance, evaluations,   *)
(* refused calls and closed-form conjugates do not count), and prints each    *)
(* history with the count expected at every call; the conformance check       *)
(* replays them on the real operators.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Depth

Acts == {"p",      \* prox with a first step, at a new point
         "q",      \* prox with another step, at a new point
         "r",      \* prox repeating the first point and step
         "d",      \* conjugate map
         "v",      \* evaluation
         "g",      \* gradient
         "x"}      \* refused prox (negative step)

VARIABLES dser,    \* this operator derives its conjugate from its proximal map
          gser,    \* ... its gradient (of the envelope)
          cnt,     \* served proximal calls per instance
          hist     \* <<action, instance, count of that instance after the call>>
vars == <<dser, gser, cnt, hist>>

Init == /\ dser \in BOOLEAN /\ gser \in BOOLEAN
        /\ cnt = <<0, 0>> /\ hist = <<>>
Counts(a) == a \in {"p", "q", "r"} \/ (a = "d" /\ dser) \/ (a = "g" /\ gser)
Call(a, i) == /\ Len(hist) < Depth
              /\ (hist = <<>> => i = 1)                 \* (the instances are interchangeable)
              /\ cnt' = IF Counts(a) THEN [cnt EXCEPT ![i] = @ + 1] ELSE cnt
              /\ hist' = Append(hist, <<a, i, cnt'[i]>>)
              /\ UNCHANGED <<dser, gser>>
Next == \E a \in Acts : \E i \in {1, 2} : Call(a, i)
Spec == Init /\ [][Next]_vars

Own(h, i) == SelectSeq(h, LAMBDA e : e[2] = i)
\* the count seen by each call is the number of its instance's own counting calls up to it
OwnCount == \A j \in DOMAIN hist :
  LET o == Own(SubSeq(hist, 1, j), hist[j][2]) IN
  hist[j][3] = Cardinality({k \in DOMAIN o : Counts(o[k][1])})
\* removing the other instance's calls, evaluations and refusals changes no count
Independent == \A i \in {1, 2} :
  LET o == SelectSeq(Own(hist, i), LAMBDA e : Counts(e[1])) IN \A k \in DOMAIN o : o[k][3] = k
Show == Len(hist) = Depth => PrintT(<<"HIST", ToJson([d |-> dser, g |-> gser, h |-> hist])>>)
=============================================================================
