------------------------------ MODULE Refusals -------------------------------
(* Which arguments are refused, and how.  A case is one request: a            *)
(* constructor, combinator, solver or operator call with the arguments that   *)
(* decide its validity.  Refusal gives the errors it may raise; no error      *)
(* means the request must be served.  TLC enumerates every case below (Valid) *)
(* and prints them; the conformance check makes each request to the real      *)
(* library and OpTrace decides the observed outcome with the same Refusal.    *)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

Sgn  == {"-1.0", "-0.001", "0.0", "0.5"}
B    == BOOLEAN
Maps == {"call", "prox", "proxdual", "grad"}
Types == {"array", "carray", "list", "tuple", "float", "npfloat", "int", "str", "none"}
Accs == {"none", "None", "vandenberghe", "fista", "nesterov", "FISTA", "", "fista ", "0"}

\* steps: the form they are passed in; arrays have one entry per coordinate, with val at pos and ones elsewhere
Scalars == [what : {"step"}, map : {"prox", "proxdual"}, how : {"pos", "kw"}, form : {"float", "npfloat64", "npfloat32", "zerod"},
            val : {"-1.0", "-1e-30", "-0.0", "0.0", "1e-3", "1.0", "2.5"}, pos : {"all"}]
Ints    == [what : {"step"}, map : {"prox", "proxdual"}, how : {"pos", "kw"}, form : {"int", "npint"}, val : {"-3", "0", "1", "2"}, pos : {"all"}]
Arrays  == [what : {"step"}, map : {"prox", "proxdual"}, how : {"pos", "kw"}, form : {"array"}, val : {"-1.0", "0.0", "1.0"}, pos : {"all", "first", "last"}]

Cases ==
       Scalars \cup Ints \cup Arrays
  \cup [what : {"Log"}, sigma : Sgn, gamma : Sgn \ {"0.0"}]          \* (gamma = 0 is neither refused nor meaningful)
  \cup [what : {"ETP", "Geman"}, sigma : Sgn, gamma : Sgn]
  \cup [what : {"Log1"}, delta : Sgn]
  \cup [what : {"SCAD"}, sigma : Sgn, a : {"-1.0", "1.9", "2.0", "2.001", "3.7"}]
  \cup [what : {"L2"}, solver : {"legacy", "cg", "cgls", "lsqr", "CG", "", "none"}, op : {"no", "dense", "implicit"}]
  \cup [what : {"Quadratic"}, rows : 1..3, cols : 1..3, implicit : B]
  \cup [what : {"Simplex"}, engine : {"numpy", "numba", "fortran", "Numpy", ""}, ndims : 0..4]
  \cup [what : {"VStack"}, nn : B, restr : B]
  \cup [what : {"VStackSize"}, by : {"nn", "restr"}, map : Maps, off : -2..2]
  \cup [what : {"VStackCount"}, ops : 1..3, restr : 1..3, map : Maps]
  \cup [what : {"Sum", "InterProx", "InterProj"}, n : 0..4, parallel : B]
  \cup [what : {"affine_addition", "plus", "postcomposition", "times"}, arg : Types]
  \cup [what : {"precomposition"}, a : Types, b : Types]
  \cup [what : {"PG", "GPG"}, acc : Accs]
  \cup [what : {"GPGWeights"}, n : 1..4, len : 0..5, sum : {"1.0", "0.9", "1.01", "2.0"}]
  \cup [what : {"GPGDefault"}, n : 1..12]
  \cup [what : {"HQS", "ADMM", "ADMML2", "LinearizedADMM"}, x0 : B, z0 : B, first : B]
  \cup [what : {"lx", "ly"}, op : B]
  \cup [what : {"LowRankMatvec"}, n : 1..3, m : 1..3]
  \cup [what : {"Abstract"}, map : {"call"}]

VE == {"ValueError"}
NI == {"NotImplementedError"}
IsArr(t) == t \in {"array", "carray"}
IsFlt(t) == t \in {"float", "npfloat"}

Refusal(c) ==
  CASE c.what = "Log"  -> IF RLt(c.sigma, 0) \/ RLt(c.gamma, 0) THEN VE ELSE {}
    [] c.what \in {"ETP", "Geman"} -> IF RLt(c.sigma, 0) \/ RLe(c.gamma, 0) THEN VE ELSE {}
    [] c.what = "Log1" -> IF RLt(c.delta, 0) THEN VE ELSE {}
    [] c.what = "SCAD" -> IF RLe(c.sigma, 0) \/ RLe(c.a, 2) THEN VE ELSE {}
    [] c.what = "L2"   -> IF c.solver \in {"legacy", "cg", "cgls"} THEN {} ELSE VE
    [] c.what = "Quadratic" -> IF c.rows = c.cols THEN {} ELSE VE
    [] c.what = "Simplex" -> (IF c.engine \in {"numpy", "numba"} THEN {} ELSE {"KeyError"})
                             \cup (IF c.ndims \in {0, 2} THEN {} ELSE VE)          \* ndims = 0: not given
    [] c.what = "VStack" -> IF c.nn \/ c.restr THEN {} ELSE VE
    [] c.what = "VStackSize" -> IF c.off = 0 THEN {} ELSE VE
    [] c.what = "VStackCount" -> IF c.ops = c.restr THEN {} ELSE VE
    [] c.what \in {"Sum", "InterProx", "InterProj"} -> IF c.n = 0 THEN VE ELSE {}
    [] c.what \in {"affine_addition", "plus"} -> IF IsArr(c.arg) THEN {} ELSE NI
    [] c.what = "postcomposition" -> IF IsFlt(c.arg) THEN {} ELSE NI
    [] c.what = "precomposition" -> IF IsFlt(c.a) /\ (IsFlt(c.b) \/ IsArr(c.b)) THEN {} ELSE NI
    [] c.what = "times" -> {}
    [] c.what \in {"PG", "GPG"} -> IF c.acc \in {"none", "None", "vandenberghe", "fista"} THEN {} ELSE NI
    [] c.what = "GPGWeights" -> IF c.len = c.n /\ REq(c.sum, 1) THEN {} ELSE VE
    [] c.what = "GPGDefault" -> {}
    [] c.what \in {"HQS", "ADMM"} -> IF c.x0 \/ c.z0 THEN {} ELSE VE
    [] c.what \in {"ADMML2", "LinearizedADMM"} -> IF c.x0 THEN {} ELSE VE
    [] c.what \in {"lx", "ly"} -> IF c.op THEN VE ELSE {}
    [] c.what = "LowRankMatvec" -> IF c.n = c.m THEN NI ELSE {}
    [] c.what = "Abstract" -> NI
    [] c.what = "step" -> IF RLe(c.val, 0) THEN VE ELSE {}

\* requests about which nothing is claimed
Open(c) ==
  \/ c.what = "step" /\ c.form = "array" /\ RLt(0, c.val)     \* (steps given per coordinate: only some operators)
  \/ c.what = "times" /\ c.arg \notin {"float", "npfloat", "int"}
  \/ c.what = "GPGWeights" /\ c.len = 0 /\ c.n # 0 /\ REq(c.sum, 1)
  \/ c.what = "VStack" /\ c.nn /\ c.restr
  \/ c.what = "LinearizedADMM" /\ c.first           \* has no order flag
  \/ c.what = "postcomposition" /\ c.arg = "int"
  \/ c.what = "precomposition" /\ (c.a = "int" \/ c.b = "int")

\* a step, given as the sequence of its entries
StepRefused(tau) == \E i \in DOMAIN tau : RLe(tau[i], 0)

OutcomeOK(c, got) == IF Refusal(c) = {} THEN got = "ok" ELSE got \in Refusal(c)

=============================================================================
