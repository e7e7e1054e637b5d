------------------------------ MODULE Dykstra ------------------------------
(* The two Dykstra iterations of the library, over half-planes, with the      *)
(* stopping rule as a parameter.  One action is one cycle over all sets.      *)
(*   cyclic:   y_i = P_i(y_{i-1} + z_i);  z_i += y_{i-1} - y_i                *)
(*   parallel: x = mean of P_i(z_i);      z_i += x - P_i(z_i)                 *)
(* Rule "x": stop when the iterate repeats itself over a cycle; "all": when,  *)
(* besides, the increments do (cyclic), or the terms agree (parallel).  TLC   *)
(* shows that "all" stops at nearest points only and that "x" does not.       *)
EXTENDS Vec, TLC

CONSTANTS Rule, Variant, Lim, Span

Planes == << [h |-> <<1, 0>>, b |-> 0], [h |-> <<0, 1>>, b |-> 0], [h |-> <<1, 1>>, b |-> 1],
             [h |-> <<1, -1>>, b |-> 0], [h |-> <<-2, 1>>, b |-> 1] >>

VARIABLES x0, sets,   \* the problem
          x, z,       \* iterate, increments
          k, stopped
vars == <<x0, sets, x, z, k, stopped>>

P(s, v) == LET t == VDot(s.h, v) IN IF RLe(t, s.b) THEN VScale(1, v) ELSE VSub(v, VScale((t -- s.b) // VDot(s.h, s.h), s.h))
M == Len(sets)

\* the nearest point: the best feasible point among x0, its feet on the lines, and their crossings
Foot(s) == VSub(x0, VScale((VDot(s.h, x0) -- s.b) // VDot(s.h, s.h), s.h))
Cross(s, t) == LinSolve(<<s.h, t.h>>, <<s.b, t.b>>)
Det(s, t) == s.h[1] * t.h[2] - s.h[2] * t.h[1]
Feasible(v) == \A i \in 1..M : RLe(VDot(sets[i].h, v), sets[i].b ++ "1e-9")
NoWorse(v, c) == Feasible(c) => RLe(Dist(v, x0), Dist(c, x0) ++ "1e-5")
Best(v) == /\ NoWorse(v, x0)
           /\ \A i \in 1..M : NoWorse(v, Foot(sets[i]))
           /\ \A i, j \in 1..M : (i < j /\ Det(sets[i], sets[j]) # 0) => NoWorse(v, Cross(sets[i], sets[j]))
Nearest(v) == Best(v) /\ \A i \in 1..M : RLe(VDot(sets[i].h, v), sets[i].b ++ "1e-5")

RECURSIVE Cyc(_,_,_)
Cyc(y, zz, i) == IF i > M THEN <<y, zz>>
                 ELSE LET v == VAdd(y, zz[i]) w == P(sets[i], v) IN Cyc(w, [zz EXCEPT ![i] = VSub(v, w)], i + 1)

Init == /\ x0 \in {<<a, b>> : a, b \in (0 - Span)..Span}
        /\ sets \in {<<Planes[i], Planes[j]>> : <<i, j>> \in {p \in (1..5) \X (1..5) : p[1] # p[2]}}
                    \cup {<<Planes[1], Planes[4], Planes[5]>>, <<Planes[3], Planes[2], Planes[4]>>}
        /\ x = VScale(1, x0)
        /\ z = [i \in 1..Len(sets) |-> IF Variant = "cyclic" THEN Zeros(2) ELSE VScale(1, x0)]
        /\ k = 0 /\ stopped = FALSE

Close(a, b) == RLe(VMaxAbs(VSub(a, b)), "1e-9")
Cycle ==
  /\ ~stopped /\ k < Lim
  /\ IF Variant = "cyclic"
     THEN \E r \in {Cyc(x, z, 1)} :
            /\ x' = r[1] /\ z' = r[2]
            /\ stopped' = (Close(r[1], x) /\ (Rule = "all" => \A i \in 1..M : Close(r[2][i], z[i])))
     ELSE \E ps \in {[i \in 1..M |-> P(sets[i], z[i])]} :
          \E m \in {VScale(1 // R(M), IF M = 2 THEN VAdd(ps[1], ps[2]) ELSE VAdd(ps[1], VAdd(ps[2], ps[3])))} :
            /\ x' = m
            /\ z' = [i \in 1..M |-> VAdd(z[i], VSub(m, ps[i]))]
            /\ stopped' = (Close(m, x) /\ (Rule = "all" => \A i \in 1..M : Close(ps[i], m)))
  /\ k' = k + 1 /\ UNCHANGED <<x0, sets>>
Next == Cycle
Spec == Init /\ [][Next]_vars

TypeOK == k \in 0..Lim
\* nothing of the input is lost: iterate and increments add up to it (cyclic), the z_i average to it (parallel)
Total == IF M = 2 THEN VAdd(z[1], z[2]) ELSE VAdd(z[1], VAdd(z[2], z[3]))
Conserved == IF Variant = "cyclic" THEN VClose(VAdd(x, Total), x0, "1e-9") ELSE VClose(VScale(1 // R(M), Total), x0, "1e-9")
StopsRight == stopped => Nearest(x)
=============================================================================
