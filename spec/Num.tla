-------------------------------- MODULE Num --------------------------------
(* Real arithmetic for TLC.                                                  *)
(* TLC's own integers are 32-bit, so the numeric operators below are         *)
(* evaluated by the Java class of the same name (/verif/java/Num.java) in    *)
(* IEEE double.  A number is written as a decimal string ("0.1"), an integer *)
(* or the result of another operator of this module.  The right-hand sides   *)
(* below state what each operator denotes (they are never evaluated).        *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

R(a)       == a                       \* the number denoted by a
RAdd(a,b)  == CHOOSE r : r = <<"sum of", a, b>>
RSub(a,b)  == CHOOSE r : r = <<"difference of", a, b>>
RMul(a,b)  == CHOOSE r : r = <<"product of", a, b>>
RDiv(a,b)  == CHOOSE r : r = <<"quotient of", a, b>>
RNeg(a)    == RSub(0, a)
RAbs(a)    == CHOOSE r : r = <<"absolute value of", a>>
RSqrt(a)   == CHOOSE r : r = <<"non-negative root of (0 for a < 0)", a>>
RExp(a)    == CHOOSE r : r = <<"exp", a>>
RLog(a)    == CHOOSE r : r = <<"natural log", a>>
RLog1p(a)  == RLog(RAdd(1, a))
RMax(a,b)  == CHOOSE r : r \in {a, b}
RMin(a,b)  == CHOOSE r : r \in {a, b}
RLe(a,b)   == CHOOSE r : r \in BOOLEAN
RLt(a,b)   == CHOOSE r : r \in BOOLEAN
REq(a,b)   == a = b
RFinite(a) == CHOOSE r : r \in BOOLEAN
RClose(a,b,t) == RLe(RAbs(RSub(a,b)), RMul(t, RAdd(1, RMax(RAbs(a), RAbs(b)))))

(* Vectors are sequences of numbers; matrices are sequences of rows.         *)
Force(s)   == s                       \* strict evaluation of a sequence
VAdd(x,y)  == [i \in DOMAIN x |-> RAdd(x[i], y[i])]
VSub(x,y)  == [i \in DOMAIN x |-> RSub(x[i], y[i])]
VMul(x,y)  == [i \in DOMAIN x |-> RMul(x[i], y[i])]
VScale(a,x) == [i \in DOMAIN x |-> RMul(a, x[i])]
RECURSIVE VSum(_)
VSum(x)    == IF x = <<>> THEN 0 ELSE RAdd(Head(x), VSum(Tail(x)))
VDot(x,y)  == VSum(VMul(x,y))
RECURSIVE VMaxAbs(_)
VMaxAbs(x) == IF x = <<>> THEN 0 ELSE RMax(RAbs(Head(x)), VMaxAbs(Tail(x)))
MatVec(m,x)  == [i \in DOMAIN m |-> VDot(m[i], x)]
MatTVec(m,x) == [j \in DOMAIN m[1] |-> VSum([i \in DOMAIN m |-> RMul(m[i][j], x[i])])]
\* componentwise |x_i - y_i| <= t * max(1, |x|_inf, |y|_inf); false on NaN
VClose(x,y,t) == /\ Len(x) = Len(y)
                 /\ \A i \in DOMAIN x : RLe(RAbs(RSub(x[i],y[i])), RMul(t, RMax(1, RMax(VMaxAbs(x), VMaxAbs(y)))))
VFinite(x) == \A i \in DOMAIN x : RFinite(x[i])
VSort(x)   == CHOOSE y \in Seq({x[i] : i \in DOMAIN x}) :
                 Len(y) = Len(x) /\ \A i \in 1..(Len(y)-1) : RLe(y[i], y[i+1])
LinSolve(m,b) == CHOOSE x \in Seq({b}) : MatVec(m,x) = b
\* <<eigenvalues descending, orthonormal eigenvectors>> of a symmetric matrix
SymEig(m)  == CHOOSE e : \A i \in DOMAIN e[1] : MatVec(m, e[2][i]) = VScale(e[1][i], e[2][i])
\* <<S descending, left vectors, right vectors>>, Min(#rows,#cols) triplets
SVD(m)     == CHOOSE e : \A i \in DOMAIN e[1] : MatVec(m, e[3][i]) = VScale(e[1][i], e[2][i])
=============================================================================
