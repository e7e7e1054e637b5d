-------------------------------- MODULE Valid --------------------------------
(* Every request of Refusals, one state each: TLC checks that the rules are   *)
(* sensible (both outcomes reachable for every request, growing a parameter   *)
(* never turns acceptance into refusal) and prints the requests.              *)
EXTENDS Refusals, Json

VARIABLE case
Init == case \in {c \in Cases : ~Open(c)}
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

Show == PrintT(<<"CASE", ToJson(case)>>)
\* increasing a penalty parameter never makes it invalid
Monotone ==
  /\ case.what \in {"Log", "ETP", "Geman"} =>
       \A d \in Cases : (d.what = case.what /\ RLe(case.sigma, d.sigma) /\ RLe(case.gamma, d.gamma) /\ Refusal(case) = {}) => Refusal(d) = {}
  /\ case.what = "SCAD" => \A d \in Cases : (d.what = "SCAD" /\ RLe(case.sigma, d.sigma) /\ RLe(case.a, d.a) /\ Refusal(case) = {}) => Refusal(d) = {}
\* only requests with a valid neighbour are refused: no rule refuses everything
Live == Refusal(case) # {} =>
          (case.what = "Abstract" \/ (\E d \in Cases : d.what = case.what /\ ~Open(d) /\ Refusal(d) = {}))
\* a request is never refused with something that is not one of the documented errors
Documented == Refusal(case) \subseteq {"ValueError", "NotImplementedError", "KeyError"}
=============================================================================
