------------------------------ MODULE SelfTests -----------------------------
(* Verdicts of the library's self-test helpers on operators given by their    *)
(* coefficients.  A numerical verdict may go either way within rounding: each *)
(* question has the set of admissible answers.                                *)
EXTENDS Vec

\* may (must) the difference of two numbers count as being within slack s, up to rounding r
Answers(d, s, r) == {TRUE : k \in {1 : j \in IF RLe(d, s ++ r) THEN {1} ELSE {}}} \cup {FALSE : k \in {1 : j \in IF RLe(s -- r, d) THEN {1} ELSE {}}}

(* Moreau test of the maps prox(x, t) = a x + t c and proxdual(y, s) = b y + s e  *)
MoreauRest(T, x, tau) ==     \* x - (prox(x, tau) + tau proxdual(x / tau, 1 / tau))
  VSub(x, VAdd(VAdd(VMul(T.a, x), VScale(tau, T.c)), VAdd(VMul(T.b, x), T.e)))
\* the tolerance is absolute; a relative slack of up to 1e-5 on top is admissible
MoreauAnswers(T, x, tau, tol) ==
  LET d == MoreauRest(T, x, tau)  x0 == RMax(1, VMaxAbs(x))  r == RMul("1e-12", x0)
      lo == \A i \in DOMAIN d : RLe(RAbs(d[i]), tol -- r)
      hi == \A i \in DOMAIN d : RLe(RAbs(d[i]), (tol ++ RMul("2e-5", x0 ++ VMaxAbs(d))) ++ r)
  IN  IF lo THEN {TRUE} ELSE IF hi THEN {TRUE, FALSE} ELSE {FALSE}

(* Gradient test of f(z) = sum_i h_i z_i^2 / 2 + a_i z_i over the real coordinates *)
(* z, claiming the gradient g: the verdict along coordinate i                      *)
Quotient(T, z, i, delta) == (T.a[i] ++ (T.h[i] ** z[i])) ++ ((T.h[i] ** delta) // 2)
FVal(T, z) == VSum(Force([i \in DOMAIN z |-> (RMul(T.h[i], Sq(z[i])) // 2) ++ (T.a[i] ** z[i])]))
GradAnswers(T, z, i, delta, rtol, atol) ==
  LET q == Quotient(T, z, i, delta)  gi == T.g[i]
      r == (RMul("1e-14", 1 ++ VMaxAbs(z) ++ RAbs(FVal(T, z))) // delta) ++ RMul("1e-12", 1 ++ RAbs(q))
  IN  Answers(RAbs(q -- gi), atol ++ (rtol ** RAbs(gi)), r)
=============================================================================
