-------------------------------- MODULE Vec --------------------------------
(* Vectors over Num: infix arithmetic, atoms (real or complex entries        *)
(* flattened to real coordinates), groups of coordinates, small matrices.    *)
EXTENDS Num, Integers, Sequences, FiniteSets

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)

Sq(a)      == RMul(a, a)
VNeg(x)    == VScale(-1, x)
Norm(x)    == RSqrt(VDot(x, x))
Dist(x, y) == Norm(VSub(x, y))
Zeros(n)   == Force([i \in 1..n |-> R(0)])
Ones(n)    == Force([i \in 1..n |-> R(1)])
Const(n,c) == Force([i \in 1..n |-> R(c)])
Map1(F(_), x) == Force([i \in DOMAIN x |-> F(x[i])])
VAbs(x)    == Map1(RAbs, x)
SignOf(a)  == IF RLt(0, a) THEN R(1) ELSE IF RLt(a, 0) THEN R(-1) ELSE R(0)
VSign(x)   == Map1(SignOf, x)
Pos(a)     == RMax(a, 0)
Clamp(a, lo, hi) == RMin(RMax(a, lo), hi)
Norm1(x)   == VSum(VAbs(x))
Cat(x, y)  == Force(x \o y)
Slice(x, i, j) == Force(SubSeq(x, i, j))

RECURSIVE CatAll(_)
CatAll(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o CatAll(Tail(s))

(* matrices: sequences of rows *)
Cols(m)      == Len(m[1])
Transp(m)    == Force([j \in 1..Cols(m) |-> Force([i \in DOMAIN m |-> R(m[i][j])])])
MatMul(a, b) == LET bt == Transp(b) IN Force([i \in DOMAIN a |-> Force([j \in DOMAIN bt |-> VDot(a[i], bt[j])])])
MAdd(a, b)   == Force([i \in DOMAIN a |-> VAdd(a[i], b[i])])
MScale(s, a) == Force([i \in DOMAIN a |-> VScale(s, a[i])])
Eye(n)       == Force([i \in 1..n |-> Force([j \in 1..n |-> IF i = j THEN R(1) ELSE R(0)])])
Reshape(x, r, c) == Force([i \in 1..r |-> Slice(x, (i-1)*c + 1, i*c)])
Flat(m)      == Force(CatAll(m))
NormalMat(A, s) == MAdd(Eye(Cols(A)), MScale(s, MatMul(Transp(A), A)))   \* I + s A^T A

(* groups: a sequence of index sequences partitioning the coordinates *)
Atoms(n, w)  == [i \in 1..(n \div w) |-> [k \in 1..w |-> (i-1)*w + k]]       \* w = 1 real, w = 2 complex entries
Stacks(n, d) == LET m == n \div d IN [i \in 1..m |-> [k \in 1..d |-> (k-1)*m + i]]
\* the same with entries of w coordinates
StacksW(n, d, w) == LET m == n \div d IN [i \in 1..(m \div w) |-> [k \in 1..(d*w) |-> ((k-1) \div w)*m + (i-1)*w + ((k-1) % w) + 1]]
Sub(x, g)    == Force([k \in DOMAIN g |-> x[g[k]]])
Mags(x, G)   == Force([i \in DOMAIN G |-> Norm(Sub(x, G[i]))])
\* x with the magnitude of every group replaced by nm (direction kept; zero groups stay zero)
WithMags(x, G, nm) ==
  LET m  == Mags(x, G)
      gi == [c \in DOMAIN x |-> CHOOSE i \in DOMAIN G : \E k \in DOMAIN G[i] : G[i][k] = c]
      f  == Force([i \in DOMAIN G |-> IF REq(m[i], 0) THEN R(0) ELSE nm[i] // m[i]])
  IN  Force([c \in DOMAIN x |-> x[c] ** f[gi[c]]])

(* weakly-typed helpers *)
SumF(F(_), S) ==  \* sum over a finite set of integers
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN R(0) ELSE LET t == CHOOSE u \in T : TRUE IN RAdd(F(t), go(T \ {t}))
  IN go(S)
=============================================================================
