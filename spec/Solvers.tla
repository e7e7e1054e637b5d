------------------------------ MODULE Solvers ------------------------------
(* The iterative solvers as transition systems over ProxLib.                 *)
(*   Start(c)    the state after initialisation                              *)
(*   Steps(c,s)  the possible states after one more iteration (more than one *)
(*               only where a floating-point comparison is too close to call)*)
(*   Obs(c,s)    what the callback of that iteration is given                *)
(*   Ret(c,s)    what the solver returns when it stops in s                  *)
(*   Qty(c,s)    the quantity compared with the tolerance                    *)
(* A configuration c is a record; c.alg names the solver.                    *)
EXTENDS ProxLib

None == "none"
Zero == [k |-> "Zero"]
Idx(v, k) == v[IF Len(v) = 1 THEN 1 ELSE k]           \* scalar or per-iteration parameter
VMag(c, x) == VMaxAbs(Mags(x, Atoms(Len(x), c.w)))    \* largest entry in magnitude (w = 2: complex entries)
Mul(A, x)  == IF A = <<>> THEN x ELSE MatVec(A, x)    \* <<>>: the identity
MulT(A, x) == IF A = <<>> THEN x ELSE MatTVec(A, x)

\* comparisons of nearly equal numbers go either way
LeMay(a, b)  == RLe(a, b ++ RMul("1e-12", 1 ++ (RAbs(a) ++ RAbs(b))))
LeMust(a, b) == RLe(a, b -- RMul("1e-12", 1 ++ (RAbs(a) ++ RAbs(b))))
\* (the residuals of the adaptive primal-dual method are differences of proximal points)
LeMayR(a, b)  == RLe(a, b ++ RMul("1e-9", 1 ++ (RAbs(a) ++ RAbs(b))))
LeMustR(a, b) == RLe(a, b -- RMul("1e-9", 1 ++ (RAbs(a) ++ RAbs(b))))
\* a step too small for f(z) and its model to be told apart: the accepted step size is rounding noise
Noise(d, y)  == RLe(VMaxAbs(d), RMul("1e-6", 1 ++ VMaxAbs(y)))

Omega(acc, k, t) ==   \* momentum of iteration k = 0, 1, ...; t the new FISTA scalar, told the previous one
  CASE acc = "vandenberghe" -> R(k) // R(k + 3)
    [] acc = "fista" -> (t[1] -- 1) // t[2]
    [] OTHER -> R(0)
NextT(t) == (1 ++ RSqrt(1 ++ RMul(4, Sq(t)))) // 2

----------------------------------------------------------------------------
(* sufficient decrease: the step shrinks by beta until f(z) is below the     *)
(* quadratic model at y, or the budget is exhausted                          *)
\* (sets of one element {v}, with v bound from them, make TLC evaluate v once)
RECURSIVE Back(_,_,_,_,_,_,_)
Back(f, g, y, tau, eps, beta, n) ==
  UNION {
    LET gr == Grad(f, y)
        d  == VSub(z, y)
        fz == Val(f, z)
        ft == Val(f, y) ++ (VDot(gr, d) ++ (VDot(d, d) // RMul(2, tau)))
    IN IF Noise(d, y) /\ ~LeMust(fz, ft) /\ LeMay(fz, ft) THEN {<<z, R(tau), TRUE>>}
       ELSE (IF LeMay(fz, ft) THEN {<<z, R(tau), FALSE>>} ELSE {})
       \cup (IF LeMust(fz, ft) THEN {}
             ELSE UNION {IF n = 1 THEN {<<z, t, FALSE>>} ELSE Back(f, g, y, t, eps, beta, n - 1) : t \in {tau ** beta}})
    : z \in {Prox(g, VSub(y, VScale(tau, Grad(f, y))), eps ** tau)}}

----------------------------------------------------------------------------
(* alternating minimisation of H(x, y) + f(x) + g(y)                         *)
BilV(H, x, y)  == Val(H, Cat(x, y))
BilGX(H, x, y) == Slice(Grad(H, Cat(x, y)), 1, H.w * (H.n * H.r))
BilGY(H, x, y) == Slice(Grad(H, Cat(x, y)), H.w * (H.n * H.r) + 1, H.w * ((H.n * H.r) + (H.r * H.m)))
\* (the real form of a complex matrix has each of its entries twice)
LipX(H, y) == LET Y == MEmb(H.w, y, H.r, H.m) IN Norm(Flat(MatMul(Y, Transp(Y)))) // RSqrt(H.w)     \* bound for the x-gradient
LipY(H, x) == LET X == MEmb(H.w, x, H.n, H.r) IN Norm(Flat(MatMul(Transp(X), X))) // RSqrt(H.w)
RECURSIVE PBack(_,_,_,_,_,_,_,_,_)
\* one block step from p (the other block fixed at q, gradient gr); ix = 1: x-block, 2: y-block
PBack(H, f, ix, p, q, gr, tau, beta, n) ==
  UNION {
    LET hv(v) == IF ix = 1 THEN BilV(H, v, q) ELSE BilV(H, q, v)
        d  == VSub(z, p)
        fz == hv(z)
        ft == hv(p) ++ (VDot(gr, d) ++ (VDot(d, d) // RMul(2, tau)))
    IN IF Noise(d, p) /\ ~LeMust(fz, ft) /\ LeMay(fz, ft) THEN {<<z, R(tau), TRUE>>}
       ELSE (IF LeMay(fz, ft) \/ RLt(tau, "1e-12") THEN {<<z, R(tau), FALSE>>} ELSE {})
       \cup (IF LeMust(fz, ft) \/ RLt(tau, "1e-12") THEN {}
             ELSE UNION {IF n = 1 THEN {<<z, t, FALSE>>} ELSE PBack(H, f, ix, p, q, gr, t, beta, n - 1) : t \in {tau ** beta}})
    : z \in {Prox(f, VSub(p, VScale(tau, gr)), tau)}}
BlockGrad(H, ix, p, q) == IF ix = 1 THEN BilGX(H, p, q) ELSE BilGY(H, q, p)
Block(H, f, ix, p, q, gam, tau, beta, n) ==
  IF gam = None THEN UNION {PBack(H, f, ix, p, q, gr, tau, beta, n) : gr \in {BlockGrad(H, ix, p, q)}}
  ELSE LET L  == gam ** (IF ix = 1 THEN LipX(H, q) ELSE LipY(H, q))
           gr == BlockGrad(H, ix, p, q)
       IN {<<Prox(f, VSub(p, VScale(1 // L, gr)), 1 // L), R(tau), FALSE>>}

----------------------------------------------------------------------------
(* Anderson mixing of the histories G (points) and Rs (residuals), newest first *)
Gram(Rs) == Force([i \in DOMAIN Rs |-> Force([j \in DOMAIN Rs |-> VDot(Rs[i], Rs[j])])])
AndAlpha(Rs) == LET a == LinSolve(Gram(Rs), Ones(Len(Rs))) IN VScale(1 // VSum(a), a)
IllCond(Rs)  == LET e == SymEig(Gram(Rs))[1] n == Len(e) IN RLe(e[n], RMul("1e-6", e[1]))
Mix(a, G)    == Force([i \in DOMAIN G[1] |-> VSum(Force([j \in DOMAIN G |-> a[j] ** G[j][i]]))])
Trunc(h, m)  == SubSeq(h, 1, IF Len(h) < m THEN Len(h) ELSE m)

----------------------------------------------------------------------------
(* segmentation: classes stacked, one image per class                        *)
SegN(c)   == NEl(c.dims)
SegA(c)   == LET n == SegN(c) nd == Len(c.dims) K == Len(c.cl) IN
             Force(CatAll([j \in 1..K |-> CatAll([a \in 1..nd |-> Force([p \in 1..n |->
                Force([q \in 1..(K*n) |->
                   LET s == Stride(c.dims, a) ix == ((p-1) \div s) % c.dims[a] IN
                   IF ix = c.dims[a]-1 THEN R(0) ELSE IF q = (j-1)*n + p + s THEN R(1) ELSE IF q = (j-1)*n + p THEN R(-1) ELSE R(0)])])])]))
SegZ(c)   == LET n == SegN(c) K == Len(c.cl)
                 e == Force([q \in 1..(K*n) |-> LET j == ((q-1) \div n) + 1 p == ((q-1) % n) + 1 IN
                              (RMul(c.sigma // 2, Sq(c.y[p] -- c.cl[j]))) // (IF c.cls = <<>> THEN R(1) ELSE R(c.cls[j]))])
             IN IF c.z = <<>> THEN e ELSE VAdd(e, c.z)
SegF(c)   == LET n == SegN(c) K == Len(c.cl) IN
             [k |-> "Simplex", r |-> 1, multi |-> TRUE, rows |-> [p \in 1..n |-> [j \in 1..K |-> (j-1)*n + p]]]
SegG(c)   == LET n == SegN(c) nd == Len(c.dims) K == Len(c.cl) IN
             [k |-> "VStack", idx |-> [j \in 1..K |-> [q \in 1..(nd*n) |-> (j-1)*nd*n + q]],
              fs |-> [j \in 1..K |-> [k |-> "L21", nd |-> nd, sig |-> c.alpha // 2]]]
SegPD(c)  == [alg |-> "PD", f |-> SegF(c), g |-> SegG(c), A |-> SegA(c), x0 |-> IF c.x0 = <<>> THEN Zeros(SegN(c) * Len(c.cl)) ELSE c.x0,
              y0 |-> <<>>, z |-> SegZ(c), tau |-> <<1>>, mu |-> <<"0.125">>, theta |-> 1, gfirst |-> TRUE, niter |-> c.niter, w |-> 1]

----------------------------------------------------------------------------
\* Some solvers start with work of their own before the first iteration
Obj2(c, x, k) == Val(c.f, x) ++ (Idx(c.eps, k) ** Val(c.g, x))
Wt(c, i) == IF c.wts = <<>> THEN 1 // R(Len(c.fs)) ELSE R(c.wts[i])
WMean(c, ys) == Force([j \in DOMAIN ys[1] |-> VSum(Force([i \in DOMAIN ys |-> Wt(c, i) ** ys[i][j]]))])
SumGrad(fs, x) == LET gs == [i \in DOMAIN fs |-> Grad(fs[i], x)] IN
                  Force([j \in DOMAIN x |-> VSum(Force([i \in DOMAIN fs |-> gs[i][j]]))])
Z0(c) == IF c.z0 = <<>> THEN Mul(c.A, c.x0) ELSE c.z0      \* start of the second block
X0(c) == IF c.x0 = <<>> THEN c.z0 ELSE c.x0

\* nothing more is claimed about a run whose steps are below what rounding can tell apart
Blind(s) == "blind" \in DOMAIN s /\ s.blind

SoftV(x, t) == Force([i \in DOMAIN x |-> SignOf(x[i]) ** Pos(RAbs(x[i]) -- t)])
\* SR3's inexact inner solve: conjugate-gradient iterates x (normal-equation residual r,
\* direction p) until the thresholded z = S(Lx) repeats itself, or j steps were made
RECURSIVE Inner(_,_,_,_,_,_,_)
Inner(c, M, x, r, p, zo, j) ==
  IF j = 0 \/ RLe(Norm(r), RMul("1e-11", RAdd(1, Norm(MatTVec(c.Op, c.b))))) THEN {x}
  ELSE UNION {LET a == VDot(r, r) // VDot(p, Mp)
                  y == VAdd(x, VScale(a, p))
                  r2 == VSub(r, VScale(a, Mp))
                  z == SoftV(MatVec(c.L, y), c.eps // R(c.kappa))
                  d == Dist(z, zo)
                  th == RMul("1e-6", Norm(zo))
              IN (IF RLt(d -- "1e-11", th) THEN {y} ELSE {})
                 \cup (IF RLt(d ++ "1e-11", th) THEN {}
                       ELSE Inner(c, M, y, r2, VAdd(r2, VScale(VDot(r2, r2) // VDot(r, r), p)), z, j - 1))
              : Mp \in {MatVec(M, p)}}

RECURSIVE Start(_)
RECURSIVE Steps(_,_)
RECURSIVE Run(_,_,_)
RECURSIVE Ret(_,_)

(* one step per entry (several right-hand sides): tau v, and the proximal map of e sum tau_i g_i *)
TauScale(c, tau, v) == IF "tauv" \in DOMAIN c THEN VMul(c.tauv, v) ELSE VScale(tau, v)
ProxT(c, tau, x, e) ==
  IF "tauv" \notin DOMAIN c THEN Prox(c.g, x, e ** tau)
  ELSE IF c.g.k = "L1" THEN Prox([c.g EXCEPT !.sig = VMul(@, c.tauv)], x, e)
  ELSE Prox(c.g, x, e)               \* the indicator of a box, or nothing

Start(c) ==
  CASE c.alg = "PP" -> [k |-> 0, x |-> c.x0, J |-> R("inf"), q |-> R(1)]
    [] c.alg = "PG" -> [k |-> 0, x |-> c.x0, y |-> c.x0, t |-> R(1), tau |-> IF c.tau = None THEN R(1) ELSE R(c.tau), J |-> R("inf"), q |-> R(1), blind |-> FALSE]
    [] c.alg = "AA" -> LET y == VSub(c.x0, TauScale(c, c.tau, Grad(c.f, c.x0)))
                           x == ProxT(c, c.tau, y, Idx(c.eps, 1))
                       IN [k |-> 0, x |-> x, y |-> y, G |-> <<y>>, Rs |-> <<VSub(y, c.x0)>>, pf |-> Val(c.f, x), J |-> R("inf"), q |-> R(1), blind |-> FALSE]
    [] c.alg = "GPG" -> [k |-> 0, x |-> c.x0, y |-> c.x0, zs |-> [j \in DOMAIN c.gs |-> c.x0], t |-> R(1)]
    [] c.alg = "TW" -> [k |-> 0, xo |-> c.x0, x |-> Prox(c.g, VSub(c.x0, Grad(c.f, c.x0)), 1), js |-> <<>>]
    [] c.alg = "HQS" -> [k |-> 0, x |-> X0(c), z |-> Z0(c)]
    [] c.alg = "ADMM" -> [k |-> 0, x |-> X0(c), z |-> Z0(c), u |-> Zeros(Len(Z0(c)))]
    [] c.alg \in {"ADMML2", "LADMM"} -> [k |-> 0, x |-> c.x0, z |-> Z0(c), u |-> Zeros(Len(Z0(c)))]
    [] c.alg = "DR" -> [k |-> 0, x |-> c.x0, y |-> c.x0]
    [] c.alg = "PPXA" -> [k |-> 0, x |-> WMean(c, c.ys), ys |-> c.ys, q |-> R("inf")]
    [] c.alg = "CADMM" -> [k |-> 0, x |-> c.x0, ys |-> [i \in DOMAIN c.fs |-> Zeros(Len(c.x0))], q |-> R("inf")]
    [] c.alg = "PD" -> [k |-> 0, x |-> c.x0, xh |-> c.x0, y |-> IF c.y0 = <<>> THEN Zeros(Len(c.A)) ELSE c.y0]
    [] c.alg = "APD" -> [k |-> 0, x |-> c.x0, y |-> Zeros(Len(c.A)), tau |-> R(c.tau), mu |-> R(c.mu), al |-> R(c.alpha), q |-> R("inf"),
                         taus |-> <<R(c.tau)>>, mus |-> <<R(c.mu)>>, als |-> <<R(c.alpha)>>]
    [] c.alg = "SEG" -> Start(SegPD(c))
    [] c.alg \in {"PALM", "iPALM"} -> [k |-> 0, x |-> c.x0, y |-> c.y0, xo |-> c.x0, yo |-> c.y0, tf |-> R(1), tg |-> R(1), blind |-> FALSE]
    [] c.alg = "BREG" -> [k |-> 0, x |-> c.x0, u |-> Zeros(Len(c.x0)), q |-> R("inf"), fv |-> R("inf")]
    [] c.alg = "SR3" -> [k |-> 0, x |-> c.x0, w |-> Zeros(Len(c.L)), v |-> Zeros(Len(c.L)), t |-> R(1), q |-> R("inf")]

\* |1 - J/Jold|, the relative change of the objective
RelCh(J, Jo) == RAbs(1 -- (J // Jo))
RelErr(Jo) == "1e-11" ** (1 ++ (1 // RAbs(Jo)))         \* how well it is determined

Steps(c, s) ==
  LET k1 == s.k + 1 IN
  CASE Blind(s) /\ c.alg # "AA" -> {[s EXCEPT !.k = k1]}
    [] c.alg = "PP" -> LET x == Prox(c.f, s.x, c.tau)
                           J == IF c.tol = None THEN R(0) ELSE Val(c.f, x)
                       IN {[k |-> k1, x |-> x, J |-> J, q |-> IF c.tol = None THEN R(1) ELSE RelCh(J, s.J), qe |-> RelErr(s.J)]}
    [] c.alg = "PG" ->
         LET e  == Idx(c.eps, k1)
             zt == IF c.tau = None \/ c.back THEN Back(c.f, c.g, s.y, s.tau, e, c.beta, c.nback)
                   ELSE {<<ProxT(c, s.tau, VSub(s.y, TauScale(c, s.tau, Grad(c.f, s.y))), e), s.tau, FALSE>>}
             t2 == NextT(s.t)
             om == Omega(c.acc, s.k, <<s.t, t2>>)
         IN {LET x == VAdd(s.y, VScale(c.eta, VSub(z[1], s.y)))
                 J == IF c.tol = None THEN R(0) ELSE Obj2(c, x, k1)
             IN [k |-> k1, x |-> x, y |-> VAdd(x, VScale(om, VSub(x, s.x))), t |-> t2, tau |-> z[2], J |-> J, blind |-> s.blind \/ z[3],
                 q |-> IF c.tol = None THEN R(1) ELSE RelCh(J, s.J), qe |-> RelErr(s.J)] : z \in zt}
    [] c.alg = "AA" ->
         LET gr == Grad(c.f, s.x)
             g  == VSub(s.x, TauScale(c, c.tau, gr))
             Rs == Trunc(<<VSub(g, s.y)>> \o s.Rs, c.nhist)
             G  == Trunc(<<g>> \o s.G, c.nhist)
             bl == s.blind \/ IllCond(Rs)
             y  == IF bl THEN g ELSE Mix(AndAlpha(Rs), G)
             e  == Idx(c.eps, k1)
             x  == ProxT(c, c.tau, y, e)
             xg == ProxT(c, c.tau, g, e)
             fx == Val(c.f, x)
             bd == s.pf -- (VDot(gr, TauScale(c, c.tau, gr)) // 2)
             mk(yy, xx) == LET J == IF c.tol = None THEN R(0) ELSE Obj2(c, xx, k1) IN
                           [k |-> k1, x |-> xx, y |-> yy, G |-> G, Rs |-> Rs, pf |-> Val(c.f, xx), J |-> J,
                            q |-> IF c.tol = None THEN R(1) ELSE RelCh(J, s.J), qe |-> RelErr(s.J), blind |-> bl]
         IN IF ~c.guard THEN {mk(y, x)}
            ELSE (IF LeMay(fx, bd) THEN {mk(y, x)} ELSE {}) \cup (IF LeMust(fx, bd) THEN {} ELSE {mk(g, xg)})
    [] c.alg = "GPG" ->
         LET gr == SumGrad(c.fs, s.x)
             wj(j) == IF c.wts = <<>> THEN 1 // R(Len(c.gs)) ELSE R(c.wts[j])
             zs == [j \in DOMAIN c.gs |->
                      LET p == Prox(c.gs[j], VSub(VSub(VScale(2, s.y), s.zs[j]), VScale(c.tau, gr)), (c.tau ** Idx(c.eps, j)) // wj(j))
                      IN VAdd(s.zs[j], VScale(c.eta, VSub(p, s.y)))]
             zf == Force([j \in DOMAIN zs |-> zs[j]])
             x  == Force([i \in DOMAIN s.x |-> VSum(Force([j \in DOMAIN zf |-> wj(j) ** zf[j][i]]))])
             t2 == NextT(s.t)
         IN {[k |-> k1, x |-> x, y |-> VAdd(x, VScale(Omega(c.acc, s.k, <<s.t, t2>>), VSub(x, s.x))), zs |-> zf, t |-> t2]}
    [] c.alg = "TW" ->
         LET p == Prox(c.g, VSub(s.x, Grad(c.f, s.x)), 1)
             x == VAdd(VAdd(VScale(1 -- c.alpha, s.xo), VScale(c.alpha -- c.beta, s.x)), VScale(c.beta, p))
         IN {[k |-> k1, xo |-> s.x, x |-> x, js |-> IF c.cost THEN Append(s.js, Val(c.f, x) ++ Val(c.g, x)) ELSE <<>>]}
    [] c.alg = "HQS" ->
         LET t == Idx(c.tau, k1) IN
         IF c.gfirst THEN LET z == Prox(c.g, s.x, t) IN {[k |-> k1, z |-> z, x |-> Prox(c.f, z, t)]}
         ELSE LET x == Prox(c.f, s.z, t) IN {[k |-> k1, x |-> x, z |-> Prox(c.g, x, t)]}
    [] c.alg = "ADMM" ->
         LET z1 == Prox(c.g, VAdd(s.x, s.u), c.tau)
             x1 == Prox(c.f, VSub(z1, s.u), c.tau)
             x2 == Prox(c.f, VSub(s.z, s.u), c.tau)
             z2 == Prox(c.g, VAdd(x2, s.u), c.tau)
         IN IF c.gfirst THEN {[k |-> k1, x |-> x1, z |-> z1, u |-> VSub(VAdd(s.u, x1), z1)]}
            ELSE {[k |-> k1, x |-> x2, z |-> z2, u |-> VSub(VAdd(s.u, x2), z2)]}
    [] c.alg = "ADMML2" ->   \* x: argmin |Op x - b|^2/2 + |A x - z + u|^2/(2 tau)
         LET xs(z) == LinSolve(MAdd(MatMul(Transp(c.Op), c.Op), MScale(1 // R(c.tau), MatMul(Transp(c.A), c.A))),
                               VAdd(MatTVec(c.Op, c.b), VScale(1 // R(c.tau), MatTVec(c.A, VSub(z, s.u)))))
             z1 == Prox(c.g, VAdd(MatVec(c.A, s.x), s.u), c.tau)
             x1 == xs(z1)
             x2 == xs(s.z)
             z2 == Prox(c.g, VAdd(MatVec(c.A, x2), s.u), c.tau)
         IN IF c.gfirst THEN {[k |-> k1, x |-> x1, z |-> z1, u |-> VSub(VAdd(s.u, MatVec(c.A, x1)), z1)]}
            ELSE {[k |-> k1, x |-> x2, z |-> z2, u |-> VSub(VAdd(s.u, MatVec(c.A, x2)), z2)]}
    [] c.alg = "LADMM" ->
         LET x == Prox(c.f, VSub(s.x, VScale(c.mu // R(c.tau), MatTVec(c.A, VAdd(VSub(MatVec(c.A, s.x), s.z), s.u)))), c.mu)
             a == MatVec(c.A, x)
             z == Prox(c.g, VAdd(a, s.u), c.tau)
         IN {[k |-> k1, x |-> x, z |-> z, u |-> VSub(VAdd(s.u, a), z)]}
    [] c.alg = "DR" ->
         LET p == IF c.gfirst THEN c.g ELSE c.f
             q == IF c.gfirst THEN c.f ELSE c.g
             x == Prox(p, s.y, c.tau)
         IN {[k |-> k1, x |-> x, y |-> VAdd(s.y, VScale(c.eta, VSub(Prox(q, VSub(VScale(2, x), s.y), c.tau), x)))]}
    [] c.alg = "PPXA" ->
         LET ps == Force([i \in DOMAIN c.fs |-> Prox(c.fs[i], s.ys[i], c.tau // Wt(c, i))])
             pn == WMean(c, ps)
             x  == VAdd(s.x, VScale(c.eta, VSub(pn, s.x)))
         IN {[k |-> k1, x |-> x, q |-> VMag(c, VSub(x, s.x)),
              ys |-> [i \in DOMAIN ps |-> VAdd(s.ys[i], VScale(c.eta, VSub(VSub(VScale(2, pn), s.x), ps[i])))]]}
    [] c.alg = "CADMM" ->
         LET m  == Len(c.fs)
             ps == Force([i \in 1..m |-> Prox(c.fs[i], VSub(s.x, s.ys[i]), c.tau)])
             x  == Force([j \in DOMAIN s.x |-> VSum(Force([i \in 1..m |-> ps[i][j]])) // m])
         IN {[k |-> k1, x |-> x, q |-> VMag(c, VSub(x, s.x)), ys |-> [i \in 1..m |-> VSub(VAdd(s.ys[i], ps[i]), x)]]}
    [] c.alg = "PD" ->
         LET t == Idx(c.tau, k1)  m == Idx(c.mu, k1)
             dual(y, xh) == ProxDual(c.g, VAdd(y, VScale(m, MatVec(c.A, xh))), m)
             aty(y) == IF c.z = <<>> THEN MatTVec(c.A, y) ELSE VAdd(MatTVec(c.A, y), c.z)
             prim(y) == Prox(c.f, VSub(s.x, VScale(t, aty(y))), t)
             over(x) == VAdd(x, VScale(c.theta, VSub(x, s.x)))
         IN IF c.gfirst THEN LET y == dual(s.y, s.xh) x == prim(y) IN {[k |-> k1, x |-> x, y |-> y, xh |-> over(x)]}
            ELSE LET x == prim(s.y) xh == over(x) IN {[k |-> k1, x |-> x, xh |-> xh, y |-> dual(s.y, xh)]}
    [] c.alg = "APD" ->
         LET aty == IF c.z = <<>> THEN MatTVec(c.A, s.y) ELSE VAdd(MatTVec(c.A, s.y), c.z)
             x == Prox(c.f, VSub(s.x, VScale(s.tau, aty)), s.tau)
             y == ProxDual(c.g, VAdd(s.y, VScale(s.mu, MatVec(c.A, VSub(VScale(2, x), s.x)))), s.mu)
             p == Norm(VSub(VScale(1 // s.tau, VSub(s.x, x)), MatTVec(c.A, VSub(s.y, y))))
             d == Norm(VSub(VScale(1 // s.mu, VSub(s.y, y)), MatVec(c.A, VSub(s.x, x))))
             hi == c.s ** (d ** c.delta)   lo == (c.s ** d) // c.delta
             mk(t, m, a) == [k |-> k1, x |-> x, y |-> y, tau |-> t, mu |-> m, al |-> a, q |-> RMin(p, d),
                             blind |-> RLe(RMax(p, d), RMul("1e-10", 1 ++ RMax(VMaxAbs(x), VMaxAbs(y)))),   \* both residuals are rounding noise
                             taus |-> Append(s.taus, t), mus |-> Append(s.mus, m), als |-> Append(s.als, a)]
             f == 1 -- s.al
         IN (IF LeMustR(p, hi) THEN {} ELSE {mk(s.tau // f, s.mu ** f, s.al ** c.eta)})
            \cup (IF LeMustR(lo, p) THEN {} ELSE {mk(s.tau ** f, s.mu // f, s.al ** c.eta)})
            \cup (IF LeMayR(p, hi) /\ LeMayR(lo, p) THEN {mk(s.tau, s.mu, s.al)} ELSE {})
    [] c.alg = "SEG" -> Steps(SegPD(c), s)
    [] c.alg \in {"PALM", "iPALM"} ->
         LET a1 == IF c.alg = "PALM" THEN R(0) ELSE R(c.a[1])
             a2 == IF c.alg = "PALM" THEN R(0) ELSE R(c.a[2])
             zx == VAdd(s.x, VScale(a1, VSub(s.x, s.xo)))
             zy == VAdd(s.y, VScale(a2, VSub(s.y, s.yo)))
         IN UNION {{[k |-> k1, x |-> bx[1], y |-> by[1], xo |-> s.x, yo |-> s.y, tf |-> bx[2], tg |-> by[2], blind |-> bx[3] \/ by[3]]
                      : by \in Block(c.H, c.g, 2, zy, bx[1], c.gg, s.tg, c.beta, c.nback)}
                   : bx \in Block(c.H, c.f, 1, zx, s.y, c.gf, s.tf, c.beta, c.nback)}
    [] c.alg = "BREG" ->    \* u: minus the accumulated subgradient
         LET fq == IF s.k = 0 THEN c.f ELSE [k |-> "Add", f |-> c.f, v |-> VScale(RNeg(c.alpha), s.u)]
             ci == [c.inner EXCEPT !.f = fq, !.g = [k |-> "Post", s |-> c.alpha, f |-> c.g], !.x0 = IF c.warm THEN s.x ELSE c.x0]
         IN {LET x == Ret(ci, e)[1] IN
             [k |-> k1, x |-> x, u |-> VSub(s.u, VScale(1 // R(c.alpha), Grad(c.f, x))), q |-> Dist(x, s.x), fv |-> Val(c.f, x)]
               : e \in Run(ci, {Start(ci)}, ci.niter)}
    [] c.alg = "SR3" ->
         LET M == MAdd(MatMul(Transp(c.Op), c.Op), MScale(c.kappa, MatMul(Transp(c.L), c.L)))
             B == VAdd(MatTVec(c.Op, c.b), VScale(c.kappa, MatTVec(c.L, s.v)))
             t == 2 // (1 ++ RSqrt(1 ++ (4 // Sq(s.t))))
         IN {LET w == SoftV(MatVec(c.L, x), c.eps // R(c.kappa)) IN
             [k |-> k1, x |-> x, w |-> w, t |-> t, v |-> VAdd(w, VScale(1 -- t, VSub(w, s.w))), q |-> Dist(s.v, w) // RMax(1, Norm(w))]
              : x \in IF c.adaptive THEN Inner(c, M, s.x, VSub(B, MatVec(M, s.x)), VSub(B, MatVec(M, s.x)), s.v, c.inner)
                      ELSE {Force(LinSolve(M, B))}}

\* n further iterations (solvers without a tolerance)
Run(c, S, n) == IF n = 0 THEN S ELSE Run(c, UNION {Steps(c, s) : s \in S}, n - 1)

----------------------------------------------------------------------------
Obs(c, s) ==
  CASE c.alg \in {"HQS", "ADMM"} /\ c.cb2 -> <<s.x, s.z>>
    [] c.alg \in {"DR", "PD"} /\ c.cb2 -> <<s.x, s.y>>
    [] c.alg \in {"PALM", "iPALM"} -> <<s.x, s.y>>
    [] OTHER -> <<s.x>>
Ret(c, s) ==
  CASE c.alg \in {"HQS", "ADMM", "ADMML2", "LADMM"} -> <<s.x, s.z>>
    [] c.alg \in {"DR", "PALM", "iPALM"} -> <<s.x, s.y>>
    [] c.alg = "PD" /\ c.rety -> <<s.x, s.y>>
    [] c.alg = "APD" -> <<s.x, s.taus, s.mus, s.als>>
    [] c.alg = "TW" /\ c.cost -> <<s.x, s.js>>
    [] OTHER -> <<s.x>>

\* the documented stopping rule: met for sure / possibly met
HasTol(c) == c.alg \in {"PP", "PG", "AA", "PPXA", "CADMM", "APD", "BREG", "SR3"} /\ c.tol # None
QErr(s) == IF "qe" \in DOMAIN s THEN s.qe ELSE R("1e-11")
Below(q, e, tol) == RLt(q ++ (RMul("1e-6", tol) ++ e), tol)
Near(q, e, tol)  == ~RLe(tol, q -- (RMul("1e-6", tol) ++ e))    \* (also where the change is 0/0)
MustStop(c, s) == HasTol(c) /\ ~Blind(s) /\ s.k > 0 /\ (Below(s.q, QErr(s), c.tol) \/ (c.alg = "BREG" /\ Below(s.fv, QErr(s), c.tolf)))
MayStop(c, s)  == HasTol(c) /\ s.k > 0 /\ (Near(s.q, QErr(s), c.tol) \/ (c.alg = "BREG" /\ Near(s.fv, QErr(s), c.tolf)))

\* the step of an alternating solver is the inverse of a bound that is zero
Undefined(c, s) == c.alg \in {"PALM", "iPALM"} /\
                   LET zero(v) == ~VFinite(v) \/ RLt(VMaxAbs(v), "1e-8") IN
                   (c.gf # None /\ zero(s.y)) \/ (c.gg # None /\ \E t \in Block(c.H, c.f, 1, VAdd(s.x, VScale(IF c.alg = "PALM" THEN 0 ELSE c.a[1], VSub(s.x, s.xo))), s.y, c.gf, s.tf, c.beta, c.nback) : zero(t[1]))
=============================================================================
