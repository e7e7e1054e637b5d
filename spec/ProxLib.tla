------------------------------ MODULE ProxLib ------------------------------
(* The denotation of every operator of the library: its documented value,    *)
(* proximal map, conjugate map, gradient and (for sets) membership.          *)
(* An operator is a record with field k (its kind) and kind-specific fields; *)
(* vectors are flattened row-major; complex vectors are interleaved re, im   *)
(* (field w = 2).                                                            *)
EXTENDS Vec, TLC

----------------------------------------------------------------------------
(* scheduled parameters: s lists the values of the schedule at 0, 1, 2, ...; *)
(* the n-th proximal call (first call: 1) uses the value at n                *)
At(s, n) == s[IF n + 1 > Len(s) THEN Len(s) ELSE n + 1]

----------------------------------------------------------------------------
(* separable non-convex penalties, as functions of a magnitude m >= 0        *)
PhiNC(o, m) ==
  CASE o.k = "Log"  -> (o.sig // RLog1p(o.gamma)) ** RLog1p(o.gamma ** m)
    [] o.k = "ETP"  -> (o.sig // (1 -- RExp(RNeg(o.gamma)))) ** (1 -- RExp(RNeg(o.gamma ** m)))
    [] o.k = "Geman" -> (o.sig ** m) // (m ++ o.gamma)
    [] o.k = "SCAD" -> IF RLe(m, o.sig) THEN o.sig ** m
                       ELSE IF RLe(m, o.a ** o.sig)
                            THEN (RMul(2, o.a ** (o.sig ** m)) -- Sq(m) -- Sq(o.sig)) // RMul(2, o.a -- 1)
                            ELSE ((o.a ++ 1) ** Sq(o.sig)) // 2
    [] o.k = "QEC"  -> R(o.mu) -- (Sq(Pos(RSqrt(RMul(2, o.mu)) -- m)) // 2)
    [] o.k = "RMS"  -> RMin(o.sig ** Sq(m), o.kappa)
    [] o.k = "L0"   -> IF RLt(0, m) THEN R(o.sig) ELSE R(0)
    [] o.k = "Log1" -> o.sig ** RLog(m ++ o.delta)

\* objective of the scalar proximal problem  tau phi(z) + (z - m)^2 / 2
ObjNC(o, tau, m, z) == (tau ** PhiNC(o, z)) ++ (Sq(z -- m) // 2)

\* least objective found over 0, m, a grid on [0, m] and a ternary refinement
RECURSIVE Refine(_,_,_,_,_,_)
Refine(o, tau, m, lo, hi, n) ==
  IF n = 0 THEN ObjNC(o, tau, m, (lo ++ hi) // 2)
  ELSE LET d == (hi -- lo) // 3  a == lo ++ d  b == hi -- d IN
       IF RLe(ObjNC(o, tau, m, a), ObjNC(o, tau, m, b)) THEN Refine(o, tau, m, lo, b, n-1)
       ELSE Refine(o, tau, m, a, hi, n-1)

GridN == 24
BestNC(o, tau, m) ==
  IF REq(m, 0) THEN ObjNC(o, tau, m, 0)
  ELSE LET pt(i)  == (m ** i) // GridN
           vals   == Force([i \in 1..(GridN+1) |-> ObjNC(o, tau, m, pt(i-1))])
           sorted == VSort(vals)
           ib     == CHOOSE i \in 1..(GridN+1) : REq(vals[i], sorted[1])
           inner  == VSort(Slice(vals, 2, GridN+1))
           ii     == CHOOSE i \in 2..(GridN+1) : REq(vals[i], inner[1])
           ref(i) == Refine(o, tau, m, pt(IF i = 1 THEN 0 ELSE i-2), pt(IF i = GridN+1 THEN GridN ELSE i), 40)
       IN RMin(sorted[1], RMin(ref(ib), ref(ii)))

\* closed-form (documented) thresholding rules
HardT(m, t)        == IF RLe(m, t) THEN R(0) ELSE R(m)
Log1T(o, tau, m)   == LET ts == tau ** o.sig IN    \* (never across zero, where delta is large)
                      IF RLt(RMax(RSqrt(RMul(2, ts)) -- o.delta, 0), m)
                      THEN Pos((m -- o.delta) ++ RSqrt(Sq(m ++ o.delta) -- RMul(2, ts))) // 2
                      ELSE R(0)
QECT(o, tau, m)    == IF RLe(RSqrt(RMul(2, o.mu)), m) THEN R(m)
                      ELSE IF RLe(1, tau) THEN (IF RLt(RSqrt(RMul(2, RMul(tau, o.mu))), m) THEN R(m) ELSE R(0))
                      ELSE Pos((m -- (tau ** RSqrt(RMul(2, o.mu)))) // (1 -- tau))

NCKinds == {"Log", "ETP", "Geman", "SCAD", "QEC", "RMS"}

----------------------------------------------------------------------------
(* cardinality envelope: Q(z) + |z|^2/2 is half the squared k-support norm    *)
TopSq(s, r0)  == LET a == VSort(VAbs(s))  n == Len(s) IN VSum(Force([i \in 1..(IF r0 < n THEN r0 ELSE n) |-> Sq(a[n-i+1])]))
KSup2(z, k) ==
  LET n == Len(z)  a == VSort(VAbs(z))
      d(i) == IF i < 1 THEN "inf" ELSE IF i > n THEN R(0) ELSE a[n-i+1]         \* descending, d(0) = inf
  IN IF k >= n THEN VDot(z, z)
     ELSE LET tail(i) == VSum(Force([j \in 1..(n-i+1) |-> d(i+j-1)]))             \* sum_{j>=i} d(j)
              ok(r) == LET t == tail(k-r) // (r+1) IN RLt(t, d(k-r-1)) /\ RLe(d(k-r), t)
              cand  == {r \in 0..(k-1) : ok(r)}
              r     == IF cand = {} THEN k-1 ELSE CHOOSE q \in cand : TRUE
              head  == VSum(Force([j \in 1..(k-r-1) |-> Sq(d(j))]))
          IN head ++ (Sq(tail(k-r)) // (r+1))
QCard(z, r0) == IF r0 = 0 THEN (IF REq(VMaxAbs(z), 0) THEN R(0) ELSE R("inf"))
                ELSE (KSup2(z, r0) -- VDot(z, z)) // 2
\* Fenchel certificate that s is a subgradient at z of |.|_{k-support}^2 / 2
CardGap(z, s, r0) == ((KSup2(z, r0) // 2) ++ (TopSq(s, r0) // 2)) -- VDot(z, s)

----------------------------------------------------------------------------
(* Euclidean projections                                                      *)
RECURSIVE SimplexC(_,_,_,_)
\* the shift c with sum max(x - c, 0) = r, found by walking the sorted entries
SimplexC(a, r, k, acc) ==         \* a descending, first k taken, acc their sum
  LET c == (acc -- r) // k IN
  IF k = Len(a) THEN c
  ELSE IF RLe(a[k+1], c) THEN c ELSE SimplexC(a, r, k+1, acc ++ a[k+1])
Desc(x)         == LET s == VSort(x) n == Len(x) IN Force([i \in 1..n |-> s[n-i+1]])
SimplexProj(x, r) == LET a == Desc(x) c == SimplexC(a, r, 1, a[1]) IN Force([i \in DOMAIN x |-> Pos(x[i] -- c)])
\* magnitudes m >= 0 projected on {sum <= r}
L1Mags(m, r)    == IF RLe(VSum(m), r) THEN m ELSE SimplexProj(m, r)
BallProj(x, c, r) == LET d == VSub(x, c) n == Norm(d) IN IF RLe(n, r) THEN x ELSE VAdd(c, VScale(r // n, d))
HalfProj(x, h, b) == LET s == VDot(h, x) IN IF RLe(s, b) THEN x ELSE VSub(x, VScale((s -- b) // VDot(h, h), h))
AffProj(x, A, b)  == LET r == VSub(MatVec(A, x), b)
                         G == MatMul(A, Transp(A))
                     IN VSub(x, MatTVec(A, LinSolve(G, r)))
BoxProj(x, lo, up) == Force([i \in DOMAIN x |-> Clamp(x[i], lo[i], up[i])])
RECURSIVE HBis(_,_,_,_,_,_,_,_)
HBis(x, a, s, lo, up, p, q, n) ==
  LET c == (p ++ q) // 2 IN
  IF n = 0 THEN c
  ELSE IF RLe(VDot(a, BoxProj(VSub(x, VScale(c, a)), lo, up)), s) THEN HBis(x, a, s, lo, up, p, c, n-1)
       ELSE HBis(x, a, s, lo, up, c, q, n-1)
HyperProj(x, a, s, lo, up) == BoxProj(VSub(x, VScale(HBis(x, a, s, lo, up, R("-1e9"), R("1e9"), 110), a)), lo, up)
HankelProj(x, m, n) ==
  LET v(d) == [i \in 0..(m-1) |-> IF d - i >= 0 /\ d - i < n THEN x[i*n + (d-i) + 1] ELSE R(0)]
      cnt(d) == Cardinality({i \in 0..(m-1) : d - i >= 0 /\ d - i < n})
      mean == Force([d \in 1..(m+n-1) |-> VSum(Force([i \in 1..m |-> v(d-1)[i-1]])) // cnt(d-1)])
  IN Force([c \in 1..(m*n) |-> mean[((c-1) \div n) + ((c-1) % n) + 1]])
FromSVD(S, nm, U, V) ==   \* sum_j nm_j u_j v_j^T
  LET m == Len(U[1]) n == Len(V[1]) IN
  Force(CatAll([i \in 1..m |-> Force([j \in 1..n |-> VSum(Force([l \in DOMAIN S |-> nm[l] ** (U[l][i] ** V[l][j])]))])]))
\* coordinates of one entry: 2 for complex entries (written as re, im pairs)
W(o) == IF "w" \in DOMAIN o THEN o.w ELSE 1
SVals(x, dim) == SVD(Reshape(x, dim[1], dim[2]))[1]
\* a complex matrix as a real one of twice the size: its singular values come in pairs
CxEmb(x, r, c) == Force([i \in 1..(2*r) |-> Force([j \in 1..(2*c) |->
   LET e == ((i-1) \div 2)*c + ((j-1) \div 2)  re == x[(2*e)+1]  im == x[(2*e)+2] IN
   IF i % 2 = j % 2 THEN R(re) ELSE IF i % 2 = 1 THEN RNeg(im) ELSE R(im)])])
MatX(o, x) == IF W(o) = 2 THEN CxEmb(x, o.dim[1], o.dim[2]) ELSE Reshape(x, o.dim[1], o.dim[2])
SValsO(o, x) == LET S == SVD(MatX(o, x))[1] IN Force([i \in 1..(Len(S) \div W(o)) |-> S[i * W(o)]])
\* x with its singular values replaced
WithSVals(o, x, F(_)) ==
  LET d == SVD(MatX(o, x))  S == d[1]  w == W(o)
      nm == F(Force([i \in 1..(Len(S) \div w) |-> S[i * w]]))
      y == FromSVD(S, Force([i \in DOMAIN S |-> nm[((i-1) \div w) + 1]]), d[2], d[3])
  IN IF w = 1 THEN y ELSE
     Force([q \in DOMAIN x |-> LET e == (q-1) \div 2  i == e \div o.dim[2]  j == e % o.dim[2] IN
            y[((2*i) + ((q-1) % 2))*(2*o.dim[2]) + (2*j) + 1]])

----------------------------------------------------------------------------
(* total variation: forward differences of an array of shape dims            *)
Stride(dims, a) == LET RECURSIVE p(_) p(i) == IF i > Len(dims) THEN 1 ELSE dims[i] * p(i+1) IN p(a+1)
NEl(dims)       == LET RECURSIVE p(_) p(i) == IF i > Len(dims) THEN 1 ELSE dims[i] * p(i+1) IN p(1)
\* row-major: difference along axis a at position c (1-based); 0 at the far edge
DAt(x, dims, a, c) == LET s == Stride(dims, a) ix == ((c-1) \div s) % dims[a] IN
                      IF ix = dims[a]-1 THEN R(0) ELSE x[c+s] -- x[c]
TVVal(x, dims) == VSum(Force([c \in DOMAIN x |->
                     RSqrt(VSum(Force([a \in DOMAIN dims |-> Sq(DAt(x, dims, a, c))])))]))
\* with entries of w coordinates, which are a further, undifferentiated axis
TVValW(x, dims, w) == IF w = 1 THEN TVVal(x, dims) ELSE
  LET D == Append(dims, w) IN
  VSum(Force([e \in 1..(Len(x) \div w) |->
     RSqrt(VSum(Force([t \in 1..(Len(dims) * w) |-> Sq(DAt(x, D, ((t-1) \div w) + 1, (e-1)*w + ((t-1) % w) + 1))])))]))
\* adjoint of the stacked difference operator at a dual field p[a][c]
DAdj(p, dims) == Force([c \in 1..NEl(dims) |->
    VSum(Force([a \in DOMAIN p |->
       LET s == Stride(dims, a) ix == ((c-1) \div s) % dims[a] IN
       (IF ix > 0 THEN p[a][c-s] ELSE R(0)) -- (IF ix < dims[a]-1 THEN p[a][c] ELSE R(0))]))])
\* accelerated projected gradient on the dual; result: <<dual objective, primal point>>
TVDualProj(p, dims) ==
  LET n == NEl(dims)
      f == Force([c \in 1..n |-> RMax(1, RSqrt(VSum(Force([a \in DOMAIN dims |-> Sq(p[a][c])]))))])
  IN Force([a \in DOMAIN dims |-> Force([c \in 1..n |-> p[a][c] // f[c]])])
RECURSIVE TVIter(_,_,_,_,_,_,_)
TVIter(x, g, dims, p, r, t, n) ==
  LET sol == VSub(x, VScale(g, DAdj(r, dims))) IN
  IF n = 0 THEN p
  ELSE LET st == 1 // (g ** R(4 * Len(dims)))
           q  == TVDualProj(Force([a \in DOMAIN dims |-> Force([c \in DOMAIN x |-> r[a][c] ++ (st ** DAt(sol, dims, a, c))])]), dims)
           t2 == (1 ++ RSqrt(1 ++ RMul(4, Sq(t)))) // 2
           mo == (t -- 1) // t2
           r2 == Force([a \in DOMAIN dims |-> VAdd(q[a], VScale(mo, VSub(q[a], p[a])))])
       IN IF RLe(0, t2) /\ Len(r2) > 0 THEN TVIter(x, g, dims, q, r2, t2, n-1) ELSE p
TVPoint(x, g, dims) ==
  LET z == Force([a \in DOMAIN dims |-> Zeros(NEl(dims))])
      p == TVIter(x, g, dims, z, z, R(1), IF Len(dims) = 1 THEN 250 ELSE 180)
  IN VSub(x, VScale(g, DAdj(p, dims)))

----------------------------------------------------------------------------
SetKinds == {"Box", "Ball", "Half", "Affine", "Simplex", "L1Ball", "L0Ball", "L10Ball", "NucBall",
             "Hankel", "Inter", "Cap", "Hyper"}

(* flattened matrices, real (w = 1) or complex (w = 2, entries interleaved), through their real embedding *)
MEmb(w, x, r, c) ==
  IF w = 1 THEN Reshape(x, r, c)
  ELSE Force([i \in 1..(2*r) |-> Force([j \in 1..(2*c) |->
         LET p == ((i-1) \div 2) * c + ((j-1) \div 2)  re == x[2*p + 1]  im == x[2*p + 2] IN
         IF i % 2 = j % 2 THEN R(re) ELSE IF i % 2 = 0 THEN R(im) ELSE RNeg(im)])])
MUnEmb(w, M) ==
  IF w = 1 THEN Flat(M)
  ELSE Force([q \in 1..((Len(M) * Len(M[1])) \div 2) |->
         LET c == Len(M[1]) \div 2  p == (q-1) \div 2  i == p \div c  j == p % c IN
         IF q % 2 = 1 THEN M[2*i + 1][2*j + 1] ELSE M[2*i + 2][2*j + 1]])
MProd(w, x, y, n, r, m) == MUnEmb(w, MatMul(MEmb(w, x, n, r), MEmb(w, y, r, m)))
BilSplit(o, x) == <<Slice(x, 1, o.w * o.n * o.r), Slice(x, o.w * o.n * o.r + 1, Len(x))>>

RECURSIVE Val(_,_)
RECURSIVE Prox(_,_,_)
RECURSIVE Grad(_,_)
RECURSIVE In(_,_,_)
RECURSIVE Eff(_,_)
RECURSIVE IsSet(_)

\* the operator as it acts at its n-th proximal call
Eff(o, n) ==
  CASE o.k = "Sched" -> LET f == Eff(o.f, n) IN
                        IF o.par = "rad" THEN [f EXCEPT !.r = At(o.s, n)]
                        ELSE IF o.par = "sig" THEN [f EXCEPT !.sig = At(o.s, n)]
                        ELSE IF o.par = "kappa" THEN [f EXCEPT !.kappa = At(o.s, n)]
                        ELSE f
    [] o.k \in {"Add", "Post", "Pre", "Adj", "Orth"} -> [o EXCEPT !.f = Eff(o.f, n)]
    [] o.k = "Chain" -> [o EXCEPT !.f = Eff(o.f, n), !.g = Eff(o.g, n)]
    [] o.k = "VStack" -> [o EXCEPT !.fs = [i \in DOMAIN o.fs |-> Eff(o.fs[i], n)]]
    [] OTHER -> o

IsSet(o) ==
  \/ o.k \in SetKinds
  \/ o.k \in {"Adj", "Orth"} /\ IsSet(o.f)
  \/ o.k = "Pre" /\ IsSet(o.f)

G1(o, x) == Atoms(Len(x), o.w)
SumPhi(o, x) == LET m == Mags(x, G1(o, x)) IN VSum(Force([i \in DOMAIN m |-> PhiNC(o, m[i])]))

Val(o, x) ==
  CASE o.k = "L1"  -> LET m == Mags(VSub(x, o.g), G1(o, x)) IN VDot(o.sig, m)
    [] o.k = "L0"  -> VSum(Map1(LAMBDA m : IF RLt(0, m) THEN R(1) ELSE R(0), Mags(x, G1(o, x))))
    [] o.k = "Log1" -> VSum(Map1(LAMBDA m : RLog(m ++ o.delta), Mags(x, G1(o, x))))
    [] o.k = "L2"  -> LET r == IF o.A # <<>> THEN VSub(MatVec(o.A, x), o.b) ELSE IF o.b # <<>> THEN VSub(x, o.b) ELSE x
                      IN ((o.sig ** VDot(r, r)) // 2) ++ (IF o.q = <<>> THEN R(0) ELSE o.alpha ** VDot(o.q, x))
    [] o.k = "Conv" -> LET r == VSub(o.b, MatVec(o.H, x)) IN (o.sig ** VDot(r, r)) // 2
    [] o.k = "Euclid" -> o.sig ** Norm(x)
    [] o.k = "L21" -> o.sig ** VSum(Mags(x, StacksW(Len(x), o.nd, W(o))))
    [] o.k = "L21L1" -> (o.sig ** (o.rho ** VSum(Mags(x, Atoms(Len(x), W(o)))))) ++ (o.sig ** ((1 -- o.rho) ** VSum(Mags(x, StacksW(Len(x), o.nd, W(o))))))
    [] o.k = "Huber" -> VSum(Map1(LAMBDA m : IF RLe(m, o.alpha) THEN Sq(m) // RMul(2, o.alpha) ELSE m -- (o.alpha // 2), Mags(x, G1(o, x))))
    [] o.k = "HuberC" -> LET m == Norm(x) IN IF RLe(m, o.alpha) THEN Sq(m) // RMul(2, o.alpha) ELSE m -- (o.alpha // 2)
    [] o.k = "Quad" -> (IF o.A = <<>> THEN R(0) ELSE VDot(x, MatVec(o.A, x)) // 2) ++ (VDot(o.b, x) ++ o.c)
    [] o.k = "Nuclear" -> LET S == SValsO(o, x) IN VSum(Force([i \in DOMAIN S |-> o.sig[i] ** S[i]]))
    [] o.k = "TV"  -> o.sig ** TVValW(x, o.dims, W(o))
    [] o.k = "RMS" -> RMin(o.sig ** VDot(x, x), o.kappa)
    [] o.k \in NCKinds \ {"RMS"} -> SumPhi(o, x)
    [] o.k = "QECI" -> QCard(x, o.r0)
    [] o.k = "QERL2" -> QCard(SVals(x, o.dim), o.r0) ++ (Sq(Dist(x, o.M)) // 2)
    [] o.k = "SVP" -> Val(o.f, SValsO(o, x))
    [] o.k = "Add" -> Val(o.f, x) ++ VDot(o.v, x)
    [] o.k = "Post" -> o.s ** Val(o.f, x)
    [] o.k = "Pre" -> Val(o.f, VAdd(VScale(o.a, x), o.b))
    [] o.k = "Chain" -> Val(o.g, <<Val(o.f, x)>>)
    [] o.k = "Adj" -> Val(o.f, x)
    [] o.k = "Orth" -> Val(o.f, VAdd(MatVec(o.Q, x), o.b))
    [] o.k = "VStack" -> VSum(Force([i \in DOMAIN o.fs |-> Val(o.fs[i], Sub(x, o.idx[i]))]))
    [] o.k = "SumOps" -> VSum(Force([i \in DOMAIN o.fs |-> IF IsSet(o.fs[i]) THEN R(0) ELSE Val(o.fs[i], x)]))
    [] o.k = "Bil" -> LET xy == BilSplit(o, x) r == VSub(o.d, MatVec(o.Op, MProd(o.w, xy[1], xy[2], o.n, o.r, o.m))) IN VDot(r, r) // 2
    [] o.k = "Poly" -> VSum(Force([i \in DOMAIN x |-> ((o.c4[i] ** Sq(Sq(x[i]))) // 4) ++ (((o.c2[i] ** Sq(x[i])) // 2) ++ (o.c1[i] ** x[i]))]))
    [] o.k = "Near" -> Val(o.f, x) ++ (VDot(VSub(x, o.y), VSub(x, o.y)) // RMul(2, o.tau))    \* proximal objective
    [] o.k = "Zero" -> R(0)

\* membership of a set, up to a margin tol (negative: strictly inside)
In(o, x, tol) ==
  CASE o.k = "Box"  -> \A i \in DOMAIN x : RLe(RSub(o.lo[i], tol), x[i]) /\ RLe(x[i], RAdd(o.up[i], tol))
    [] o.k = "Ball" -> RLe(Dist(x, o.c), o.r ++ tol)
    [] o.k = "Half" -> RLe(VDot(o.h, x), o.b ++ tol)
    [] o.k = "Affine" -> \A i \in DOMAIN o.b : RLe(RAbs(VDot(o.A[i], x) -- o.b[i]), tol)
    [] o.k = "Simplex" -> \A i \in DOMAIN o.rows : LET y == Sub(x, o.rows[i]) IN
                             /\ \A j \in DOMAIN y : RLe(RNeg(tol), y[j])
                             /\ RLe(RAbs(VSum(y) -- o.r), tol)
    [] o.k = "Hyper" -> (\A i \in DOMAIN x : RLe(RSub(o.lo[i], tol), x[i]) /\ RLe(x[i], RAdd(o.up[i], tol)))
                        /\ RLe(RAbs(VDot(o.a, x) -- o.s), tol)
    [] o.k = "L1Ball" -> RLe(VSum(Mags(x, G1(o, x))), o.r ++ tol)
    [] o.k = "L0Ball" -> Cardinality({i \in DOMAIN G1(o, x) : RLt(RMax(tol, 0), Norm(Sub(x, G1(o, x)[i])))}) <= o.r
    [] o.k = "L10Ball" -> LET G == StacksW(Len(x), o.nd, W(o)) IN Cardinality({i \in DOMAIN G : RLt(RMax(tol, 0), Norm(Sub(x, G[i])))}) <= o.r
    [] o.k = "NucBall" -> RLe(VSum(SValsO(o, x)), o.r ++ tol)
    [] o.k = "Hankel" -> VClose(x, HankelProj(x, o.dim[1], o.dim[2]), RMax(tol, 0))
    [] o.k = "Inter" -> \A i \in 1..o.kk : \A j \in 1..o.kk : i < j =>
                           \A c \in 1..o.n : RLe(RAbs(x[(i-1)*o.n + c] -- x[(j-1)*o.n + c]), o.sig[i][j] ++ tol)
    [] o.k = "Cap"  -> \A i \in DOMAIN o.fs : In(o.fs[i], x, tol)
    [] o.k = "Adj"  -> In(o.f, x, tol)
    [] o.k = "Orth" -> In(o.f, VAdd(MatVec(o.Q, x), o.b), tol)
    [] o.k = "Pre"  -> In(o.f, VAdd(VScale(o.a, x), o.b), tol)
    [] o.k = "SumOps" -> \A i \in DOMAIN o.fs : IsSet(o.fs[i]) => In(o.fs[i], x, tol)

\* Dykstra-type limits (used where no closed form exists)
RECURSIVE Dyk(_,_,_,_,_,_)
Dyk(fs, taus, x, z, m, n) ==   \* cyclic Dykstra over fs with increments z
  IF n = 0 THEN x
  ELSE LET i  == m
           v  == VAdd(x, z[i])
           y  == Prox(fs[i], v, taus[i])
           z2 == [z EXCEPT ![i] = VSub(v, y)]
       IN IF Len(y) = Len(x) THEN Dyk(fs, taus, y, z2, (m % Len(fs)) + 1, n-1) ELSE x
PairSet(o, i, j, c) == [k |-> "Pair", i |-> (i-1)*o.n + c, j |-> (j-1)*o.n + c, s |-> o.sig[i][j]]
InterSets(o) == LET P == {<<i, j, c>> \in (1..o.kk) \X (1..o.kk) \X (1..o.n) : i < j}
                    RECURSIVE l(_)
                    l(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE q \in S : TRUE IN <<PairSet(o, p[1], p[2], p[3])>> \o l(S \ {p})
                IN l(P)
DykLimit(fs, tau, x, n) == Dyk(fs, [i \in DOMAIN fs |-> tau], x, [i \in DOMAIN fs |-> Zeros(Len(x))], 1, n * Len(fs))

\* the solution of (I + t A^T A) y = v
SolveN(A, t, v) == LinSolve(NormalMat(A, t), v)

\* the proximal map: argmin_z  f(z) + |z - x|^2 / (2 tau)  (closed forms)
Prox(o, x, tau) ==
  CASE o.k = "L1"  -> LET d == VSub(x, o.g) G == G1(o, x) m == Mags(d, G)
                      IN VAdd(o.g, WithMags(d, G, Force([i \in DOMAIN m |-> Pos(m[i] -- (tau ** o.sig[i]))])))
    [] o.k = "L0"  -> LET G == G1(o, x) m == Mags(x, G) IN WithMags(x, G, Force([i \in DOMAIN m |-> HardT(m[i], tau ** o.sig)]))
    [] o.k = "Log1" -> LET G == G1(o, x) m == Mags(x, G) IN WithMags(x, G, Force([i \in DOMAIN m |-> Log1T(o, tau, m[i])]))
    [] o.k = "QEC" -> LET G == G1(o, x) m == Mags(x, G) IN WithMags(x, G, Force([i \in DOMAIN m |-> QECT(o, tau, m[i])]))
    [] o.k = "RMS" -> LET G == G1(o, x) m == Mags(x, G) IN WithMags(x, G, Force([i \in DOMAIN m |->
                         LET ts == tau ** o.sig IN
                         IF RLe(Sq(m[i]), (o.kappa // o.sig) ** (1 ++ RMul(2, ts))) THEN m[i] // (1 ++ RMul(2, ts)) ELSE m[i]]))
    [] o.k = "L2"  -> LET ts  == tau ** o.sig
                          rhs == VSub(IF o.A # <<>> THEN VAdd(x, VScale(ts, MatTVec(o.A, o.b)))
                                      ELSE IF o.b # <<>> THEN VAdd(x, VScale(ts, o.b)) ELSE x,
                                      IF o.q = <<>> THEN Zeros(Len(x)) ELSE VScale(tau ** o.alpha, o.q))
                      IN IF o.A # <<>> THEN SolveN(o.A, ts, rhs) ELSE VScale(1 // (1 ++ ts), rhs)
    [] o.k = "Conv" -> LET ts == tau ** o.sig                     \* zero-padded periodic deconvolution, cropped
                           y  == LinSolve(NormalMat(o.C, ts), VAdd(MatVec(o.P, x), VScale(ts, MatTVec(o.C, o.b))))
                       IN MatTVec(o.P, y)
    [] o.k = "Euclid" -> LET n == Norm(x) t == tau ** o.sig IN IF RLe(n, t) THEN Zeros(Len(x)) ELSE VScale(1 -- (t // n), x)
    [] o.k = "L21" -> LET G == StacksW(Len(x), o.nd, W(o)) m == Mags(x, G) IN WithMags(x, G, Force([i \in DOMAIN m |-> Pos(m[i] -- (tau ** o.sig))]))
    [] o.k = "L21L1" -> LET t == tau ** o.sig
                            mx == Mags(x, Atoms(Len(x), W(o)))
                            s == WithMags(x, Atoms(Len(x), W(o)), Force([i \in DOMAIN mx |-> Pos(mx[i] -- (t ** o.rho))]))
                            G == IF o.ax = 0 THEN StacksW(Len(x), o.nd, W(o)) ELSE Atoms(Len(x), o.nd * W(o))
                            m == Mags(s, G)
                        IN WithMags(s, G, Force([i \in DOMAIN m |-> Pos(m[i] -- (t ** (1 -- o.rho)))]))
    [] o.k = "Huber" -> LET G == G1(o, x) m == Mags(x, G) IN WithMags(x, G, Force([i \in DOMAIN m |->
                           IF RLe(m[i], o.alpha ++ tau) THEN (m[i] ** o.alpha) // (o.alpha ++ tau) ELSE m[i] -- tau]))
    [] o.k = "HuberC" -> LET m == Norm(x) IN VScale(1 -- (tau // RMax(m, tau ++ o.alpha)), x)
    [] o.k = "Quad" -> LET v == VSub(x, VScale(tau, o.b)) IN IF o.A = <<>> THEN v ELSE LinSolve(MAdd(Eye(Len(x)), MScale(tau, o.A)), v)
    [] o.k = "Nuclear" -> LET th(S) == Force([i \in DOMAIN S |-> Pos(S[i] -- (tau ** o.sig[i]))]) IN WithSVals(o, x, th)
    [] o.k = "TV" -> TVPoint(x, tau ** o.sig, o.dims)
    [] o.k = "SVP" -> LET th(S) == Prox(o.f, S, tau) IN WithSVals(o, x, th)
    [] o.k = "Box" -> BoxProj(x, o.lo, o.up)
    [] o.k = "Ball" -> BallProj(x, o.c, o.r)
    [] o.k = "Half" -> HalfProj(x, o.h, o.b)
    [] o.k = "Affine" -> AffProj(x, o.A, o.b)
    [] o.k = "Simplex" -> LET ps == [i \in DOMAIN o.rows |-> SimplexProj(Sub(x, o.rows[i]), o.r)]
                              at == [c \in DOMAIN x |-> CHOOSE p \in {<<i, j>> : i \in DOMAIN o.rows, j \in DOMAIN o.rows[1]} : o.rows[p[1]][p[2]] = c]
                              fp == Force([i \in DOMAIN ps |-> ps[i]])
                          IN Force([c \in DOMAIN x |-> fp[at[c][1]][at[c][2]]])
    [] o.k = "Hyper" -> HyperProj(x, o.a, o.s, o.lo, o.up)
    [] o.k = "L1Ball" -> LET G == G1(o, x) m == Mags(x, G) IN WithMags(x, G, L1Mags(m, o.r))
    [] o.k = "NucBall" -> LET th(S) == L1Mags(S, o.r) IN WithSVals(o, x, th)
    [] o.k = "Hankel" -> HankelProj(x, o.dim[1], o.dim[2])
    [] o.k = "Pair" -> LET d == x[o.i] -- x[o.j] e == SignOf(d) ** (Pos(RAbs(d) -- o.s) // 2)
                       IN Force([c \in DOMAIN x |-> IF c = o.i THEN x[c] -- e ELSE IF c = o.j THEN x[c] ++ e ELSE R(x[c])])
    [] o.k = "Inter" -> DykLimit(InterSets(o), 1, x, 400)
    [] o.k = "Cap" -> DykLimit(o.fs, 1, x, o.n)
    [] o.k = "SumOps" -> DykLimit(o.fs, tau, x, o.n)
    [] o.k = "Add" -> Prox(o.f, VSub(x, VScale(tau, o.v)), tau)
    [] o.k = "Post" -> Prox(o.f, x, tau ** o.s)
    [] o.k = "Pre" -> VScale(1 // R(o.a), VSub(Prox(o.f, VAdd(VScale(o.a, x), o.b), Sq(o.a) ** tau), o.b))
    [] o.k = "Chain" -> Prox(o.g, Prox(o.f, x, tau), tau)
    [] o.k = "Adj" -> VSub(x, VScale(tau, Prox(o.f, VScale(1 // R(tau), x), 1 // R(tau))))
    [] o.k = "Orth" -> LET y == MatVec(o.Q, x)
                           u == VSub(Prox(o.f, VAdd(y, o.b), o.alpha ** tau), o.b)
                       IN VAdd(x, VScale(1 // R(o.alpha), MatTVec(o.Q, VSub(u, y))))
    [] o.k = "VStack" -> LET ps == Force([i \in DOMAIN o.fs |-> Prox(o.fs[i], Sub(x, o.idx[i]), tau)])
                         IN Force([c \in DOMAIN x |->
                              LET i == CHOOSE i \in DOMAIN o.idx : \E j \in DOMAIN o.idx[i] : o.idx[i][j] = c
                                  j == CHOOSE j \in DOMAIN o.idx[i] : o.idx[i][j] = c
                              IN ps[i][j]])
    [] o.k = "Zero" -> x

\* conjugate map  argmin_z f*(z) + |z - x|^2/(2 tau), by Moreau's decomposition
ProxDual(o, x, tau) == IF o.k = "Adj" THEN Prox(o.f, x, tau)
                       ELSE VSub(x, VScale(tau, Prox(o, VScale(1 // R(tau), x), 1 // R(tau))))

Grad(o, x) ==
  CASE o.k = "L2" -> VAdd(VScale(o.sig, IF o.A # <<>> THEN MatTVec(o.A, VSub(MatVec(o.A, x), o.b)) ELSE IF o.b # <<>> THEN VSub(x, o.b) ELSE x),
                          IF o.q # <<>> /\ o.qgrad THEN VScale(o.alpha, o.q) ELSE Zeros(Len(x)))
    [] o.k = "Conv" -> VScale(o.sig, MatTVec(o.H, VSub(MatVec(o.H, x), o.b)))
    [] o.k = "Quad" -> VAdd(o.b, IF o.A = <<>> THEN Zeros(Len(x)) ELSE MatVec(o.A, x))
    [] o.k = "Euclid" -> VScale(o.sig // Norm(x), x)
    [] o.k = "Add" -> VAdd(Grad(o.f, x), o.v)
    [] o.k = "Post" -> VScale(o.s, Grad(o.f, x))
    [] o.k = "Pre" -> VScale(o.a, Grad(o.f, VAdd(VScale(o.a, x), o.b)))
    [] o.k = "VStack" -> LET gs == Force([i \in DOMAIN o.fs |-> Grad(o.fs[i], Sub(x, o.idx[i]))])
                         IN Force([c \in DOMAIN x |->
                              LET i == CHOOSE i \in DOMAIN o.idx : \E j \in DOMAIN o.idx[i] : o.idx[i][j] = c
                                  j == CHOOSE j \in DOMAIN o.idx[i] : o.idx[i][j] = c
                              IN gs[i][j]])
    [] o.k = "Zero" -> Zeros(Len(x))
    [] o.k = "Bil" -> LET xy == BilSplit(o, x)
                          E == MatTVec(o.Op, VSub(MatVec(o.Op, MProd(o.w, xy[1], xy[2], o.n, o.r, o.m)), o.d))
                      IN Cat(MUnEmb(o.w, MatMul(MEmb(o.w, E, o.n, o.m), Transp(MEmb(o.w, xy[2], o.r, o.m)))),
                             MUnEmb(o.w, MatMul(Transp(MEmb(o.w, xy[1], o.n, o.r)), MEmb(o.w, E, o.n, o.m))))
    [] o.k = "BilX" -> LET g == Grad(o.f, Cat(x, o.other)) IN Slice(g, 1, Len(x))                \* partial gradients, the other
    [] o.k = "BilY" -> LET g == Grad(o.f, Cat(o.other, x)) IN Slice(g, Len(o.other) + 1, Len(g)) \* factor fixed
    [] o.k = "Poly" -> Force([i \in DOMAIN x |-> (o.c4[i] ** (x[i] ** Sq(x[i]))) ++ ((o.c2[i] ** x[i]) ++ o.c1[i])])
    [] o.k = "Near" -> VAdd(Grad(o.f, x), VScale(1 // R(o.tau), VSub(x, o.y)))
    [] OTHER -> \* Moreau-Yosida gradient of any proximable function, envelope parameter o.env
       VScale(1 // R(o.env), VSub(x, Prox(o, x, o.env)))

----------------------------------------------------------------------------
(* acceptance of an observed proximal point y                                *)
Obj(o, x, tau, z) == Val(o, z) ++ (VDot(VSub(z, x), VSub(z, x)) // RMul(2, tau))

\* direction of every group of y is that of x (or y is zero there), magnitudes not larger
Aligned(x, y, G, tol) == \A i \in DOMAIN G : LET a == Sub(x, G[i]) b == Sub(y, G[i]) IN
                            RClose(VDot(a, b), RMul(Norm(a), Norm(b)), tol)

ProxOK(o, x, tau, y, tol) ==
  /\ Len(y) = Len(x)
  /\ VFinite(y)
  /\ CASE o.k \in NCKinds ->
            LET G == G1(o, x) m == Mags(x, G) r == Mags(y, G) IN
            /\ Aligned(x, y, G, tol)
            /\ \A i \in DOMAIN m : RLe(ObjNC(o, tau, m[i], r[i]), BestNC(o, tau, m[i]) ++ RMul(tol, 1 ++ Sq(m[i])))
       [] o.k = "QECI" ->
            IF RLe(1, tau) THEN   \* hard constraint: keep r0 largest
              In([k |-> "L0Ball", r |-> o.r0, w |-> 1], y, 0)
              /\ (\A i \in DOMAIN x : REq(y[i], 0) \/ RClose(y[i], x[i], tol))
              /\ RClose(VDot(y, y), TopSq(x, o.r0), tol)
            ELSE \* s = (x - (1 - tau) z)/tau is a subgradient at z
              LET s == VScale(1 // R(tau), VSub(x, VScale(1 -- tau, y))) IN
              RLe(CardGap(y, s, o.r0), RMul(tol, 1 ++ VDot(s, s)))
       [] o.k = "QERL2" ->
            LET S  == VAdd(o.M, VScale(1 // R(tau), VSub(x, y)))
                zv == SVals(y, o.dim)
            IN RLe(((KSup2(zv, o.r0) // 2) ++ (TopSq(SVals(S, o.dim), o.r0) // 2)) -- VDot(y, S), RMul(tol, 1 ++ VDot(S, S)))
       [] o.k = "L0Ball" ->
            LET G == G1(o, x) m == Mags(x, G) IN
            /\ In(o, y, 0)
            /\ \A i \in DOMAIN G : LET b == Sub(y, G[i]) IN REq(Norm(b), 0) \/ VClose(b, Sub(x, G[i]), tol)
            /\ RClose(VDot(y, y), TopSq(m, o.r), tol)
       [] o.k = "L10Ball" ->
            LET G == StacksW(Len(x), o.nd, W(o))
                \* the documented rule keeps the columns of largest l1 norm
                N1(v) == VSum(Mags(v, Atoms(Len(v), W(o))))
                m == Force([i \in DOMAIN G |-> N1(Sub(x, G[i]))])
                r == Force([i \in DOMAIN G |-> N1(Sub(y, G[i]))])
                srt == VSort(m)
            IN
            /\ In(o, y, 0)
            /\ \A i \in DOMAIN G : REq(r[i], 0) \/ VClose(Sub(y, G[i]), Sub(x, G[i]), tol)
            /\ RClose(VSum(r), VSum(Force([i \in 1..(IF o.r < Len(m) THEN o.r ELSE Len(m)) |-> srt[Len(m)-i+1]])), tol)
       [] o.k = "TV" ->
            LET z == Prox(o, x, tau) IN RLe(Obj(o, x, tau, y), Obj(o, x, tau, z) ++ RMul(tol, 1 ++ Obj(o, x, tau, z)))
       [] o.k = "Nuclear" ->    \* unequal weights: not convex, minimisers need not be unique
            IF \A i \in DOMAIN o.sig : REq(o.sig[i], o.sig[1]) THEN VClose(y, Prox(o, x, tau), tol)
            ELSE LET z == Prox(o, x, tau) IN RLe(Obj(o, x, tau, y), Obj(o, x, tau, z) ++ RMul(RMul(10, tol), 1 ++ Obj(o, x, tau, z)))
       [] o.k = "SVP" ->   \* orthogonally invariant: the optimum is that of the singular values
            LET S == SValsO(o, x) IN
            RLe(RMul(tau, Val(o, y)) ++ (VDot(VSub(y, x), VSub(y, x)) // 2),
                VSum(Force([i \in DOMAIN S |-> BestNC(o.f, tau, S[i])])) ++ RMul(tol, 1 ++ VDot(x, x)))
       [] o.k = "Poly" -> VClose(VAdd(Grad(o, y), VScale(1 // R(tau), VSub(y, x))), Zeros(Len(x)), tol)     \* stationarity
       [] OTHER -> VClose(y, Prox(o, x, tau), tol)

\* Acceptance with a dual certificate p supplied by the recorder: p is not trusted,
\* any dual point gives a lower bound, and the duality gap bounds the distance of y
\* to the minimiser.
\* total variation: p[a][c], with pointwise norm at most 1
TVCertOK(o, x, tau, y, p, tol) ==
  LET g == tau ** o.sig
      w == W(o)
      r == VSub(x, VScale(g, DAdj(p, IF w = 1 THEN o.dims ELSE Append(o.dims, w))))
      D == (VDot(x, x) -- VDot(r, r)) // 2
      P == (VDot(VSub(y, x), VSub(y, x)) // 2) ++ (g ** TVValW(y, o.dims, w))
  IN /\ \A e \in 1..(Len(x) \div w) : RLe(VSum(Force([t \in 1..(Len(p) * w) |-> Sq(p[((t-1) \div w) + 1][(e-1)*w + ((t-1) % w) + 1])])), "1.0000000001")
     /\ RLe(P -- D, tol ** (1 ++ VDot(x, x)))
\* pairwise distances: p[i][j][c], multiplier of |x_ic - x_jc| <= sigma_ij, i < j
InterCertOK(o, x, tau, y, p, tol) ==
  LET e(i, j, c) == x[(i-1)*o.n + c] -- x[(j-1)*o.n + c]
      u == Force([q \in DOMAIN x |-> LET i == ((q-1) \div o.n) + 1 c == ((q-1) % o.n) + 1 IN
              VSum(Force([j \in 1..o.kk |-> IF j > i THEN R(p[i][j][c]) ELSE IF j < i THEN RNeg(p[j][i][c]) ELSE R(0)]))])
      lin == VSum(Force(CatAll([i \in 1..o.kk |-> CatAll([j \in 1..o.kk |-> Force([c \in 1..o.n |->
                IF i < j THEN (p[i][j][c] ** e(i, j, c)) -- (o.sig[i][j] ** RAbs(p[i][j][c])) ELSE R(0)])])])))
      D == lin -- (VDot(u, u) // 2)
      P == VDot(VSub(y, x), VSub(y, x)) // 2
  IN In(o, y, tol) /\ RLe(P -- D, tol ** (1 ++ VDot(x, x)))
CertOK(o, x, tau, y, p, tol) == IF o.k = "TV" THEN TVCertOK(o, x, tau, y, p, tol) ELSE InterCertOK(o, x, tau, y, p, tol)

----------------------------------------------------------------------------
(* sums  c_1 f_1 + ... + c_m f_m.  z minimises tau sum c_i f_i + |. - x|^2/2   *)
(* iff x - z splits into parts p_i with z the proximal point of z + p_i for   *)
(* tau c_i f_i alone; the parts are supplied by the recorder, not trusted.     *)
RECURSIVE VSumAll(_)
VSumAll(ps) == IF Len(ps) = 1 THEN ps[1] ELSE VAdd(ps[1], VSumAll(Tail(ps)))
SumCertOK(o, x, tau, z, ps, eps) ==
  /\ Len(ps) = Len(o.fs) /\ Len(z) = Len(x) /\ VFinite(z)
  /\ VClose(VAdd(z, VSumAll(ps)), x, eps)
  /\ \A i \in DOMAIN ps : VClose(Prox(o.fs[i], VAdd(z, ps[i]), tau ** o.c[i]), z, eps)
\* a violated set makes the value false; otherwise the finite terms add up; sets alone give true
SumValOK(o, x, got, v, tight, loose, tol) ==
  LET sets == {i \in DOMAIN o.fs : IsSet(o.fs[i])}
      out  == \E i \in sets : ~In(o.fs[i], x, loose)
      inn  == \A i \in sets : In(o.fs[i], x, tight)
      num  == IF sets = DOMAIN o.fs THEN got = "true"
              ELSE got = "number" /\ RClose(v, VSum(Force([i \in DOMAIN o.fs |-> IF i \in sets THEN R(0) ELSE Val(o.fs[i], x)])), tol)
  IN IF out THEN got = "false" ELSE IF inn THEN num ELSE got = "false" \/ num

----------------------------------------------------------------------------
(* Recorded defects of the library that its own tests pin (see               *)
(* known_findings.json): results matching these wrong rules exactly are      *)
(* reported under their own clause, anything else as a plain failure.        *)
KnownVal(o, x, v, tol) ==
  /\ o.k = "QERL2"                 \* misfit term evaluated as |X - M| / 2 without the square
  /\ RClose(v, QCard(SVals(x, o.dim), o.r0) ++ (Dist(x, o.M) // 2), tol)
KnownIn(o, x, v, tight, loose) ==
  /\ o.k = "Simplex" /\ o.multi
  /\ v                             \* rows summing to less than the radius are accepted
  /\ \A i \in DOMAIN o.rows : LET y == Sub(x, o.rows[i]) IN
        /\ \A j \in DOMAIN y : RLe(RNeg(loose), y[j])
        /\ RLe(VSum(y), o.r ++ loose)

\* acceptance of an observed value v of f(x)
NumOK(v, w, tol) == RClose(v, w, tol)
=============================================================================
