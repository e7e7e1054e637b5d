------------------------------- MODULE Algebra -------------------------------
(* The operator algebra as a transition system: a term is built by applying   *)
(* one combinator at a time to a leaf.  A state is the term's shape (the      *)
(* combinators applied so far); the denotation of a shape with fixed numeric  *)
(* parameters is the ProxLib operator Den.  TLC checks on every reachable     *)
(* shape, over a grid of points and steps, that the denotation given to       *)
(* composites in ProxLib really is the proximal map of the composed function  *)
(* (so that the conformance check compares the code with the right thing),    *)
(* and prints the shape for the conformance check to realise with the real    *)
(* combinators.                                                               *)
EXTENDS ProxLib

CONSTANTS Depth,     \* number of combinators
          Wide       \* check the laws (FALSE: only enumerate the shapes)

Leaves == {"pen", "loss", "set"}
Wraps  == {"add", "sub", "post", "pre", "orth", "part", "adj", "chain", "vstack", "restr"}

VARIABLE shape
Init == \E a \in Leaves : shape = <<a>>
Next == Len(shape) <= Depth /\ \E w \in Wraps : shape' = Append(shape, w)
Spec == Init /\ [][Next]_shape

----------------------------------------------------------------------------
(* a concrete term for every shape *)
Leaf(a) == CASE a = "pen"  -> [k |-> "L1", sig |-> <<"0.5", "1.0">>, g |-> <<"0.25", "0">>, w |-> 1]
             [] a = "loss" -> [k |-> "L2", sig |-> "2.0", A |-> <<<<"1.0", "0.5">>, <<"-0.5", "2.0">>, <<"0.0", "1.0">>>>,
                               b |-> <<"1.0", "-1.0", "0.5">>, q |-> <<"0.25", "-0.5">>, alpha |-> "0.5", qgrad |-> TRUE]
             [] a = "set"  -> [k |-> "Box", lo |-> <<"-0.5", "-1.0">>, up |-> <<"1.0", "0.5">>]
Dim(n) == IF n = 1 THEN 2 ELSE n           \* documentation of intent only
RECURSIVE DimOf(_)
DimOf(s) == IF Len(s) = 1 THEN 2
            ELSE LET d == DimOf(SubSeq(s, 1, Len(s)-1)) w == s[Len(s)] IN
                 IF w \in {"vstack", "restr"} THEN d + 1 ELSE IF w = "part" THEN d + 1 ELSE d
Other == [k |-> "Huber", alpha |-> "0.5", w |-> 1]
\* an orthogonal matrix of any size: a rotation of the first two coordinates, a sign on the rest
Rot(n) == Force([i \in 1..n |-> Force([j \in 1..n |->
            IF i <= 2 /\ j <= 2 THEN (IF i = j THEN R("0.6") ELSE IF i = 1 THEN R("0.8") ELSE R("-0.8"))
            ELSE IF i = j THEN R(-1) ELSE R(0)])])
\* n rows, n+1 columns, Q Q^T = 4 I
PartQ(n) == Force([i \in 1..n |-> Force([j \in 1..(n+1) |-> IF j = i + 1 THEN R(2) ELSE R(0)])])
RECURSIVE Den(_)
Den(s) ==
  IF Len(s) = 1 THEN Leaf(s[1])
  ELSE LET r == SubSeq(s, 1, Len(s)-1)  f == Den(r)  n == DimOf(r)  w == s[Len(s)]
           v == Force([i \in 1..n |-> IF i % 2 = 1 THEN R("0.75") ELSE R("-0.5")])
       IN CASE w = "add"  -> [k |-> "Add", f |-> f, v |-> v]
            [] w = "sub"  -> [k |-> "Add", f |-> f, v |-> VNeg(v)]
            [] w = "post" -> [k |-> "Post", f |-> f, s |-> "1.5"]
            [] w = "pre"  -> [k |-> "Pre", f |-> f, a |-> "-2.0", b |-> v]
            [] w = "orth" -> [k |-> "Orth", f |-> f, Q |-> Rot(n), b |-> v, alpha |-> 1]
            [] w = "part" -> [k |-> "Orth", f |-> f, Q |-> PartQ(n), b |-> v, alpha |-> "4.0"]
            [] w = "adj"  -> [k |-> "Adj", f |-> f]
            [] w = "chain" -> [k |-> "Chain", f |-> f, g |-> Other]
            [] w = "vstack" -> [k |-> "VStack", fs |-> <<f, Other>>, idx |-> <<[i \in 1..n |-> i], <<n+1>>>>]
            [] w = "restr" -> [k |-> "VStack", fs |-> <<Other, f>>, idx |-> <<<<2>>, [i \in 1..n |-> IF i = 1 THEN 1 ELSE i+1]>>]

Has(w)  == \E i \in DOMAIN shape : shape[i] = w
Grid(n) == CASE n = 2 -> {<<a, b>> : a \in {R(-2), R(-1), R(0), R(1), R(2)}, b \in {R(-2), R("-0.5"), R(0), R(1)}}
             [] OTHER -> {Force([i \in 1..n |-> IF i = p THEN R(u) ELSE IF i = q THEN R(-1) ELSE R("0.5")]) :
                             p \in 1..n, q \in 1..n, u \in {R(-2), R("0.25"), R(2)}}
Taus == {"0.5", "2.0"}

\* a composite without conjugates, chains or sets: the map minimises the documented objective
Minimises ==
  (Wide /\ ~Has("adj") /\ ~Has("chain") /\ ~Has("set")) =>
    LET o == Den(shape) n == DimOf(shape) IN
    \A x \in Grid(n) : \A t \in Taus :
      \A y \in {Prox(o, x, t)} :
        \A z \in Grid(n) : \A h \in {"1.0", "0.5", "0.05", "0.002"} :
          LET p == VAdd(y, VScale(h, VSub(z, y))) IN RLe(Obj(o, x, t, y), Obj(o, x, t, p) ++ "1e-9")
\* a set under pre-compositions and rotations: the map is the nearest point of the pre-image
Nearest ==
  (Wide /\ Has("set") /\ \A i \in 2..Len(shape) : shape[i] \in {"pre", "orth", "part", "post"}) =>
    LET o == Den(SelectSeq(shape, LAMBDA w : w # "post")) n == DimOf(shape) IN
    \A x \in Grid(n) : \A t \in Taus :
      \A y \in {Prox(Den(shape), x, t)} :
        /\ In(o, y, "1e-9")
        /\ \A z \in Grid(n) : In(o, z, 0) => RLe(VDot(VSub(x, y), VSub(z, y)), "1e-9")
\* the map of any convex term, conjugates included, is firmly non-expansive
Firm ==
  (Wide /\ ~Has("chain")) =>
    LET o == Den(shape) n == DimOf(shape) IN
    \A x \in Grid(n) : \A z \in Grid(n) : \A t \in Taus :
      \A p \in {Prox(o, x, t)} : \A q \in {Prox(o, z, t)} :
        RLe(VDot(VSub(p, q), VSub(p, q)), VDot(VSub(p, q), VSub(x, z)) ++ "1e-9")
\* conjugation is an involution, and the Moreau decomposition holds
Involution ==
  Wide => LET o == Den(shape) n == DimOf(shape) IN
    \A x \in Grid(n) : \A t \in Taus :
      /\ VClose(Prox([k |-> "Adj", f |-> [k |-> "Adj", f |-> o]], x, t), Prox(o, x, t), "1e-9")
      /\ VClose(ProxDual([k |-> "Adj", f |-> o], x, t), Prox(o, x, t), "1e-9")
\* where the term has a gradient, it is the derivative of the value
Differentiable ==
  (Wide /\ Has("loss") /\ \A i \in 2..Len(shape) : shape[i] \in {"add", "sub", "post", "pre", "vstack", "restr"}) =>
    LET o == Den(shape) n == DimOf(shape) h == "1e-5" IN
    \A x \in Grid(n) : \A i \in 1..n :
      LET u == Force([j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)])
          d == (Val(o, VAdd(x, VScale(h, u))) -- Val(o, VSub(x, VScale(h, u)))) // RMul(2, h)
      IN Has("vstack") \/ Has("restr") \/ RClose(d, Grad(o, x)[i], "1e-6")
Show == PrintT(<<"SHAPE", shape>>)
=============================================================================
