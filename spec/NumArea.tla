------------------------------ MODULE NumArea ------------------------------
(* Numerical kernels (C07, C12, C13, C14).  The code may return any result   *)
(* that satisfies the defining equations: these operations are contracts.    *)
(* Approximate results are observed in fixed point, U units to 1.            *)
(*   it    [k, ty, A, M, dot, max, rel, abs, it]  iterative solver; A, M: slots, dot: which inner product *)
(*   sd    [k, rows]                          direct solver of a matrix      *)
(*   eig   [k]       pair [k, n, r, c]        eigensolver and its output     *)
EXTENDS BlockArea

U == 10000
MaxAbs(s) == FoldLeft(LAMBDA m, v : Max2(m, Abs(v)), 0, s)
MaxAbs2(R) == FoldLeft(LAMBDA m, v : Max2(m, MaxAbs(v)), 0, R)
Close(x, y, tol) == Abs(x - y) <= tol
Small(s, b) == \A i \in 1..Len(s) : Abs(s[i]) <= b
FxDot(u, v) == SumTo(Len(u), LAMBDA i : (u[i] * v[i]) \div 100)          \* scale U*U/100
FxMul(s, x) == (s \div U) * x + (((s % U) \div 10) * x) \div 1000         \* s, x in fixed point
Column(R, j) == TLCEval([i \in 1..Len(R) |-> R[i][j]])
ColMajor(v, r, c) == TLCEval([j \in 1..c |-> SubSeq(v, (j - 1) * r + 1, j * r)])
Orthonormal(Q) ==
  /\ \A i \in 1..Len(Q) : Small(Q[i], U + 2)
  /\ \A i, j \in 1..Len(Q) : i <= j => Close(FxDot(Q[i], Q[j]), IF i = j THEN (U * U) \div 100 ELSE 0, 1200)

(* integer matrices: rows divided by the scale of the episode *)
IsIntRows(R) == \A i \in 1..Len(R) : \A j \in 1..Len(R[i]) : R[i][j] % F = 0
Ints(R) == IF F = 1 THEN R ELSE TLCEval([i \in 1..Len(R) |-> TLCEval([j \in 1..Len(R[i]) |-> R[i][j] \div F])])
DropAt(s, i) == [q \in 1..(Len(s) - 1) |-> IF q < i THEN s[q] ELSE s[q + 1]]
Minor(R, i, j) == LET S == DropAt(R, i) IN [q \in 1..Len(S) |-> DropAt(S[q], j)]
RECURSIVE Det(_)
Det(R) == IF Len(R) = 0 THEN 1
          ELSE SumTo(Len(R), LAMBDA j : IF R[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * R[1][j] * Det(Minor(R, 1, j)))
Cofactor(R, i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(R, i, j))
(* one entry per row outweighs the rest of its row, in pairwise different columns *)
DomCol(row) == LET s == SumTo(Len(row), LAMBDA j : Abs(row[j]))
                   D == {j \in 1..Len(row) : 2 * Abs(row[j]) > s}
               IN IF D = {} THEN 0 ELSE CHOOSE j \in D : TRUE
PermDominant(R) == LET d == TLCEval([i \in 1..Len(R) |-> DomCol(R[i])]) IN (\A i \in 1..Len(R) : d[i] # 0) /\ Distinct(d)
Symmetric(R) == \A i, j \in 1..Len(R) : R[i][j] = R[j][i]

-----------------------------------------------------------------------------
(* dense factorizations *)
(* products of fixed-point numbers stay within the integers of TLC *)
FxDomain(R) == LET n == IF R = <<>> THEN 0 ELSE Max2(Len(R), Len(R[1])) IN n <= 40 /\ n * MaxAbs2(R) <= 150
FactDomain(R) == IsIntRows(R) /\ MaxAbs2(Ints(R)) <= 6 /\ FxDomain(Ints(R))
Nonsingular(R) == IF Len(R) <= 4 THEN Det(R) # 0 ELSE PermDominant(R)
IsFact(op) == op \in {"inv", "qr", "svd"}
FactPre(h, op, a) ==
  /\ IsK(h, a.A, {"dn"})
  /\ ~Pinned(h, IF a.form = "out" THEN a.z ELSE a.A)
  /\ a.form = "out" => IsK(h, a.z, {"dn"}) /\ a.z # a.A
  /\ LET R == RowsOfDn(h[a.A])
     IN IF op = "inv" THEN h[a.A].r = h[a.A].c /\ IsIntRows(R) /\ Nonsingular(Ints(R)) /\ MaxAbs2(Ints(R)) <= (IF Len(R) <= 4 THEN 20 ELSE 60)
        ELSE FactDomain(R)

InverseOK(R, X) ==                       \* X: columns
  LET n == Len(R)
      m == MaxAbs2(R)
  IN IF n <= 4
       THEN LET d == Det(R)
            IN \A i, j \in 1..n :        \* X[j][i] is entry (i, j)
                 Abs(X[j][i]) < 200000000 /\ LET e == (Cofactor(R, j, i) * U) \div d IN Close(X[j][i], e, 2)
       ELSE /\ \A j \in 1..n : Small(X[j], U + 10)     \* row dominance by at least 1: entries of the inverse are at most 1
            /\ \A i, j \in 1..n : /\ Close(SumTo(n, LAMBDA q : R[i][q] * X[j][q]), IF i = j THEN U ELSE 0, n * m)
                                  /\ Close(SumTo(n, LAMBDA q : X[q][i] * R[q][j]), IF i = j THEN U ELSE 0, n * m)
SpanOK(R, Q) ==                          \* every column of R is Q Q^T times itself
  LET r == Len(R)
      n == Len(Q)
  IN \A j \in 1..(IF r = 0 THEN 0 ELSE Len(R[1])) :
       LET a == Column(R, j)
           cf == TLCEval([q \in 1..n |-> SumTo(r, LAMBDA i : Q[q][i] * a[i]) \div 10])
       IN \A i \in 1..r : Close(SumTo(n, LAMBDA q : (Q[q][i] * cf[q]) \div 1000), a[i] * U, 40 * r * (1 + MaxAbs(a)))
SvdOK(R, r, c, s, V) ==                  \* V: first min(r, c) columns
  LET n == Min2(r, c)
      m == MaxAbs2(R)
      L == Max2(1, m * r) * Max2(1, m * c)
  IN /\ Len(s) = n
     /\ Small(s, (1 + m * Max2(r, c)) * U)
     /\ \A i \in 1..n : s[i] >= 0 /\ (i < n => s[i] >= s[i + 1])
     /\ Orthonormal(V)
     /\ \A q \in 1..n :
          LET w == TLCEval([j \in 1..c |-> SumTo(r, LAMBDA i : R[i][j] * V[q][i])])
              su == TLCEval([i \in 1..r |-> FxMul(s[q], V[q][i])])
          IN \A i \in 1..r : Close(SumTo(c, LAMBDA j : R[i][j] * w[j]), FxMul(s[q], su[i]), L + 2 * (s[q] \div 500) + 200)
     /\ Close(SumTo(n, LAMBDA q : FxMul(s[q], s[q])), U * SumTo(r, LAMBDA i : SumTo(c, LAMBDA j : R[i][j] * R[i][j])),
              (n + 1) * (100 + MaxAbs(s) \div 300))

FactEff(h, op, a, e) ==
  LET A == h[a.A]
      R == Ints(RowsOfDn(A))
      t == IF a.form = "out" THEN a.z ELSE a.A
      n == Min2(A.r, A.c)
      g == e.r
      Shape(r, c) == Put(h, t, Dn(r, c, Zeros(r * c)))
      Res(h2, ok) == [h |-> h2, r |-> <<g>>, m |-> memo, ok |-> ok]
  IN CASE op = "inv" -> Res(Shape(A.r, A.c), Len(g) = A.r * A.c /\ InverseOK(R, ColMajor(g, A.r, A.c)))
       [] op = "qr" -> LET k == IF A.r = 0 \/ A.c = 0 THEN A.c ELSE n          \* an empty matrix is left alone
                       IN Res(Shape(A.r, k), /\ Len(g) = A.r * k
                                             /\ A.r = 0 \/ (Orthonormal(ColMajor(g, A.r, k)) /\ SpanOK(R, ColMajor(g, A.r, k))))
       [] op = "svd" -> Res(Shape(A.r, A.c), Len(g[2]) = A.r * A.c /\ SvdOK(R, A.r, A.c, g[1], ColMajor(g[2], A.r, n)))

-----------------------------------------------------------------------------
(* eigensolver *)
EigPre(h, op, a) ==
  CASE op \in {"new", "newpair"} -> TRUE
    [] op = "solve" ->
         /\ IsK(h, a.E, {"eig"}) /\ IsK(h, a.A, {"sp", "dn"}) /\ (h[a.A].k = "sp" => h[a.A].t = "d")
         /\ h[a.A].r = h[a.A].c
         /\ LET R == OpRows(h, a.A) IN IsIntRows(R) /\ Symmetric(R) /\ MaxAbs2(Ints(R)) <= 9 /\ FxDomain(Ints(R))
         /\ a.form = "out" => IsK(h, a.z, {"pair"})
EigOK(R, ev, V, rel, mx, prev) ==
  LET n == Len(R)
      m == Len(V)
      mag == MaxAbs2(R)
      w == Max2(1, mag * n)
      cap == IF mx < 0 \/ mx > n THEN n ELSE mx
      Lead(lim) == FoldLeft(LAMBDA q, i : IF q = i - 1 /\ ev[i] <= lim THEN i ELSE q, 1, [i \in 1..n |-> i])    \* the first always counts
      thr == (rel * ev[n]) \div 8
      Cnt(lim) == Max2(1, Min2(cap, Lead(lim)))
      lo == IF rel = 8 THEN Cnt(ev[n]) ELSE Cnt(thr - 2 - Abs(rel))
      hi == IF rel = 8 THEN Cnt(ev[n]) ELSE Cnt(thr + 2 + Abs(rel))
  IN IF n = 0 THEN ev = <<>> /\ m = 0
     ELSE /\ Len(ev) = n /\ Small(ev, (w + 1) * U)
          /\ \A i \in 1..(n - 1) : ev[i] <= ev[i + 1]
          /\ lo <= m /\ m <= hi
          /\ Close(SumSeq(ev), U * SumTo(n, LAMBDA i : R[i][i]), n + 1)
          /\ Close(SumTo(n, LAMBDA i : FxMul(ev[i], ev[i])), U * SumTo(n, LAMBDA i : SumTo(n, LAMBDA j : R[i][j] * R[i][j])), (n + 1) * (100 + MaxAbs(ev) \div 300))
          /\ Orthonormal(V)
          /\ \A q \in 1..m : \A i \in 1..n :
               Close(SumTo(n, LAMBDA j : R[i][j] * V[q][j]), FxMul(ev[q], V[q][i]), w + (MaxAbs(ev) \div U) + 100)
          /\ prev # <<>> => \A i \in 1..n : Close(ev[i], prev[i], 2)
EigEff(h, op, a, e) ==
  CASE op = "new" -> Do(Put(h, a.z, [k |-> "eig"]))
    [] op = "newpair" -> Do(Put(h, a.z, [k |-> "pair", n |-> 0, r |-> 0, c |-> 0]))
    [] op = "solve" ->
         LET R == Ints(OpRows(h, a.A))
             n == Len(R)
             g == e.r
             m == IF n = 0 THEN 0 ELSE Len(g[2]) \div n
             key == <<"eig", R>>
             prev == IF key \in DOMAIN memo THEN memo[key] ELSE <<>>
         IN [h |-> Put(h, a.z, [k |-> "pair", n |-> n, r |-> n, c |-> m]), r |-> <<g>>, m |-> (key :> g[1]) @@ memo,
             ok |-> (n > 0 => Len(g[2]) = m * n) /\ EigOK(R, g[1], ColMajor(g[2], n, m), a.rel, a.max, prev)]

-----------------------------------------------------------------------------
(* iterative solvers *)
IsIt(h, s) == IsK(h, s, {"it"})
SqOper(h, s) == s # "" /\ OpReady(h, s) /\ NRows(h, s) = NCols(h, s)
PosDef(R) == /\ Symmetric(R)             \* by dominance, with positive diagonal
             /\ \A i \in 1..Len(R) : 2 * R[i][i] > SumTo(Len(R), LAMBDA j : Abs(R[i][j]))
ItReady(h, s) ==
  /\ IsIt(h, s) /\ SqOper(h, h[s].A)
  /\ h[s].ty = "pminres" \/ h[s].M # "" => SqOper(h, h[s].M) /\ NRows(h, h[s].M) = NRows(h, h[s].A)
(* what the algorithm needs of its operators *)
ItDomain(h, ty, A, M) ==
  LET R == OpRows(h, A)
      D(X) == PosDef(X) \/ (X # <<>> /\ Len(X) <= 3 /\ Symmetric(X) /\ Det(Ints(X)) # 0)
  IN /\ IF ty \in {"cg", "pcg"} THEN PosDef(R) ELSE Symmetric(R) /\ (PermDominant(R) \/ D(R))
     /\ M # "" => PosDef(OpRows(h, M))
ItPre(h, op, a) ==
  CASE op = "new" -> IF a.form = "default" THEN TRUE
                     ELSE /\ SqOper(h, a.A) /\ (a.ty = "pminres" \/ a.M # "" => SqOper(h, a.M) /\ NRows(h, a.M) = NRows(h, a.A))
                          /\ a.form # "defaults" => a.max >= 0
    [] op = "set" -> /\ IsIt(h, a.S)
                     /\ a.form = "A" => h[a.S].A # "" /\ SqOper(h, a.A) /\ NRows(h, a.A) = NRows(h, h[a.S].A)
                     /\ a.form = "M" => h[a.S].A # "" /\ h[a.S].ty = "cg" /\ SqOper(h, a.M) /\ NRows(h, a.M) = NRows(h, h[a.S].A)
    [] op = "solve" ->
         /\ ItReady(h, a.S) /\ ItDomain(h, h[a.S].ty, h[a.S].A, h[a.S].M)
         /\ IsVecT(h, a.b, "d") /\ IsVecT(h, a.x, "d") /\ LenOf(h, a.b) = NRows(h, h[a.S].A) /\ LenOf(h, a.x) = LenOf(h, a.b)
         /\ a.trunc = 0 => h[a.S].max >= 200 /\ h[a.S].rel >= 12 /\ h[a.S].abs >= 6
         \* solved with b and x multiplied by 2^sc: the answer scales with them, as long as the tolerances are relative ones
         /\ "sc" \in DOMAIN a => a.trunc = 0 /\ h[a.S].abs >= 16 /\ a.sc >= -28
    [] op = "free" ->
         /\ SqOper(h, a.A)
         /\ a.ty \in {"pcg", "pminres"} => SqOper(h, a.M) /\ NRows(h, a.M) = NRows(h, a.A)
         /\ ItDomain(h, a.ty, a.A, IF a.ty \in {"pcg", "pminres"} THEN a.M ELSE "")
         /\ IsVecT(h, a.b, "d") /\ LenOf(h, a.b) = NRows(h, a.A)
         /\ a.form = "out" => IsVecT(h, a.x, "d") /\ LenOf(h, a.x) = LenOf(h, a.b)
         /\ a.trunc = 0 => a.defaults = 1 \/ (a.max >= 200 /\ a.rel >= 12 /\ a.abs >= 6)
         /\ "sc" \in DOMAIN a => a.trunc = 0 /\ (a.defaults = 1 \/ a.abs >= 16) /\ a.sc >= -28

(* the observed x (after rounding to the grid) solves R x = b *)
Solves(R, b, x) == /\ Len(x) = Len(b)
                   /\ Small(x, 200000)
                   /\ \A i \in 1..Len(b) : Descale(SumTo(Len(b), LAMBDA j : R[i][j] * x[j])) = b[i]
(* residual b - R x for x in fixed point, at ten units to 1 *)
Res10(R, b, x) == [i \in 1..Len(b) |-> (b[i] * U - SumTo(Len(b), LAMBDA j : R[i][j] * x[j])) \div (U \div 10)]
Sq(v) == SumTo(Len(v), LAMBDA i : v[i] * v[i])
Tol10(r) == IF r >= 4 THEN 0 ELSE r
(* a / d in fixed point, for d > 0 *)
FixDiv(a, d) == LET r == (a % d) * 100 IN (a \div d) * U + (r \div d) * 100 + ((r % d) * 100) \div d
(* the first step: conjugate gradients minimise the energy along z = M r, the minimal residual method the M-norm of the residual *)
Step1(ty, R, P, b, x0) ==
  LET n == Len(b)
      App(K, y) == TLCEval([i \in 1..n |-> SumTo(n, LAMBDA j : K[i][j] * y[j])])
      r == TLCEval([i \in 1..n |-> b[i] - SumTo(n, LAMBDA j : R[i][j] * x0[j])])
      z == IF P = <<>> THEN r ELSE App(P, r)
      w == App(R, z)
      v == IF P = <<>> THEN w ELSE App(P, w)
      num == IF ty = "cg" THEN SumTo(n, LAMBDA i : r[i] * z[i]) ELSE SumTo(n, LAMBDA i : w[i] * z[i])
      den == IF ty = "cg" THEN SumTo(n, LAMBDA i : w[i] * z[i]) ELSE SumTo(n, LAMBDA i : w[i] * v[i])
      d == IF den > 0 THEN den ELSE 1
      small == Small(r, 1000) /\ Small(z, 400) /\ Small(w, 2000) /\ Small(v, 12000) /\ den < 20000000 /\ Abs(num) < 5000000
  IN IF ~small THEN [ok |-> FALSE, zero |-> FALSE, pos |-> FALSE, x |-> <<>>]
     ELSE [ok |-> TRUE, zero |-> \A i \in 1..n : r[i] = 0, pos |-> den > 0, x |-> [i \in 1..n |-> x0[i] * U + FixDiv(num * z[i], d)]]
StartStep(ty, R, P, b, x0, x) ==
  LET s == Step1(ty, R, P, b, x0)
  IN s.ok => IF s.zero THEN \A i \in 1..Len(b) : x[i] = x0[i] * U
             ELSE s.pos /\ \A i \in 1..Len(b) : Close(x[i], s.x[i], 2)
(* an interrupted solve: x comes in fixed point; F = 1 *)
TruncOK(h, ty, A, M, mx, rel, abs, dot, b, x0, x) ==
  LET R == OpRows(h, A)
      n == Len(b)
      bound == Small(b, 100) /\ Small(x0, 5) /\ MaxAbs2(R) <= 12 /\ n <= 8
      r0 == Res10(R, b, [i \in 1..n |-> x0[i] * U])
      r1 == Res10(R, b, x)
  IN /\ Len(x) = n
     /\ F = 1 /\ bound =>
        /\ Small(x, 100 * U)
        /\ \A i \in 1..n : Abs(x[i]) <= 100 * U
        /\ mx = 0 => \A i \in 1..n : x[i] = x0[i] * U
        /\ (\A i \in 1..n : r0[i] = 0) => \A i \in 1..n : x[i] = x0[i] * U
        \* each of the methods ends at the solution in as many steps as there are unknowns
        /\ mx >= n /\ n > 0 /\ rel >= 12 /\ abs >= 6 =>
             \A i \in 1..n : Close(b[i] * U, SumTo(n, LAMBDA j : R[i][j] * x[j]), n * MaxAbs2(R) + 2)
        /\ mx = 1 /\ n > 0 /\ abs >= 6 => StartStep(IF ty = "pcg" THEN "cg" ELSE ty, R, IF M = "" THEN <<>> ELSE OpRows(h, M), b, x0, x)
        \* MINRES: the residual never grows
        /\ ty = "minres" /\ n > 0 => Small(r1, 10000) /\ Sq(r1) <= Sq(r0) + 4 * (n + ISqrt(Sq(r0))) * n
        \* conjugate gradients: the energy x'Ax/2 - b'x never grows
        /\ ty \in {"cg", "pcg"} /\ n > 0 =>
             LET En(y, ay) == SumTo(n, LAMBDA i : ((y[i] \div 100) * (ay[i] - 2 * b[i] * 100)) \div 1000)
                 xs(y) == [i \in 1..n |-> SumTo(n, LAMBDA j : R[i][j] * (y[j] \div 100))]
                 x0U == [i \in 1..n |-> x0[i] * U]
             IN MaxAbs(xs(x)) <= 100000 /\ En(x, xs(x)) <= En(x0U, xs(x0U)) + 60 * n * n
        \* enough iterations for a relative tolerance of 10^-1, 10^-2
        /\ mx >= 200 /\ M = "" /\ rel \in 1..3 /\ ty # "pcg" /\ n > 0 =>
             LET p == CASE rel = 1 -> 10 [] rel = 2 -> 100 [] OTHER -> 1000
                 q0 == ISqrt(Sq(r0)) + 1
             IN ISqrt(Sq(r1)) <= Max2(q0 \div p, IF abs = 0 THEN 10 ELSE IF abs < 0 THEN 1000 ELSE 0) + 1 + n
        \* an absolute tolerance of 10: a start that meets it is returned as it is; conjugate gradients stop once it is met
        /\ abs = 0 - 1 /\ dot # 2 /\ rel >= 12 /\ M = "" /\ ty \in {"cg", "minres"} /\ n > 0 /\ Small(r0, 10000) =>
             /\ Sq(r0) <= 9400 => \A i \in 1..n : x[i] = x0[i] * U
             /\ ty = "cg" /\ mx >= 1 /\ Sq(r0) >= 10600 =>
                  LET s == Step1(ty, R, <<>>, b, x0)
                      q == Res10(R, b, s.x)
                  IN s.ok /\ s.pos /\ Small(s.x, 100 * U) /\ Small(q, 10000) /\ Sq(q) <= 8100 => \A i \in 1..n : Close(x[i], s.x[i], 2)

ItEff(h, op, a, e) ==
  CASE op = "new" ->
         Do(Put(h, a.z, IF a.form = "default" THEN [k |-> "it", ty |-> a.ty, A |-> "", M |-> "", dot |-> 0, max |-> 0, rel |-> 0, abs |-> 0, it |-> 0]
              ELSE [k |-> "it", ty |-> a.ty, A |-> a.A, M |-> a.M, it |-> 0, dot |-> IF a.form = "full" THEN a.dot ELSE 0,
                    max |-> IF a.form = "defaults" THEN 1000 ELSE a.max, rel |-> IF a.form = "defaults" THEN 16 ELSE a.rel,
                    abs |-> IF a.form = "defaults" THEN 16 ELSE a.abs]))
    [] op = "set" ->
         LET s == h[a.S] IN
         Do([h EXCEPT ![a.S] = (CASE a.form = "max" -> [s EXCEPT !.max = a.max] [] a.form = "rel" -> [s EXCEPT !.rel = a.rel]
                                  [] a.form = "abs" -> [s EXCEPT !.abs = a.abs] [] a.form = "A" -> [s EXCEPT !.A = a.A]
                                  [] a.form = "M" -> [s EXCEPT !.M = a.M] [] OTHER -> s)])
    [] op \in {"solve", "free"} ->
         LET s == IF op = "solve" THEN h[a.S]
                  ELSE [ty |-> a.ty, A |-> a.A, dot |-> 0, M |-> IF a.ty \in {"pcg", "pminres"} THEN a.M ELSE "",
                        max |-> IF a.defaults = 1 THEN 1000 ELSE a.max, rel |-> IF a.defaults = 1 THEN 16 ELSE a.rel, abs |-> IF a.defaults = 1 THEN 16 ELSE a.abs]
             b == VecOf(h, a.b)
             ret == op = "free" /\ a.form = "ret"
             t == IF ret THEN a.z ELSE a.x
             x0 == IF ret THEN <<>> ELSE VecOf(h, a.x)
             R == OpRows(h, s.A)
             \* the value written, taken from the observation: a view's contents live in its owner
             ow == IF ~ret /\ h[t].k = "view" THEN h[t].o ELSE t
             fld == IF ~ret /\ h[t].k = "view" THEN h[t].f ELSE "v"
             x1 == IF a.trunc = 1 THEN Zeros(Len(b))
                   ELSE IF ret THEN (IF t \in DOMAIN e.d THEN e.d[t].v ELSE IF IsVecT(h, t, "d") THEN VecOf(h, t) ELSE <<>>)
                   ELSE IF t \in DOMAIN e.d THEN e.d[t].v
                   ELSE x0
             h1 == IF ret THEN Put(h, t, Vec("d", x1)) ELSE SetVec(h, t, x1)
             xs == IF a.trunc = 0 THEN <<>> ELSE IF op = "free" THEN e.r ELSE e.r[2]
             it == IF op = "solve" /\ a.S \in DOMAIN e.d THEN e.d[a.S].it ELSE IF op = "solve" THEN s.it ELSE 0
             h2 == IF op = "solve" THEN [h1 EXCEPT ![a.S] = [@ EXCEPT !.it = it]] ELSE h1
             key == <<"it", s.ty, R, IF s.M = "" THEN <<>> ELSE OpRows(h, s.M), b, x0, s.max, s.rel, s.abs, s.dot>>
             fresh == ret \/ key \notin DOMAIN memo
             \* the inner product the caller gave is the one that is used
             Asked == op = "solve" => /\ e.r[1] \in {0, 1}
                                      /\ s.dot # 2 => e.r[1] = 0
                                      /\ s.dot = 2 /\ it > 0 => e.r[1] = 1
         IN IF a.trunc = 0
              THEN [h |-> h2, r |-> IF op = "solve" THEN <<e.r>> ELSE <<>>, m |-> memo,
                    ok |-> /\ Asked /\ Len(x1) = Len(b) /\ Solves(R, b, x1)
                           /\ op = "solve" => it >= 0 /\ it <= s.max /\ (Solves(R, b, x0) => it = 0)]
              ELSE [h |-> h2, r |-> <<e.r>>, m |-> IF ret THEN memo ELSE (key :> xs) @@ memo,
                    ok |-> /\ Asked
                           /\ ~ret => TruncOK(h, s.ty, s.A, s.M, s.max, s.rel, s.abs, s.dot, b, x0, xs)
                           /\ Len(xs) = Len(b)
                           /\ op = "solve" => it >= 0 /\ it <= s.max
                           /\ fresh \/ \A i \in 1..Len(b) : Close(memo[key][i], xs[i], 2)]

ItMatch(h, x, o) ==
  /\ o.k = "it" /\ o.ty = x.ty /\ o.A = x.A /\ o.it = x.it
  /\ IF x.A = "" THEN o.r = 0 /\ o.c = 0 ELSE o.r = NRows(h, x.A) /\ o.c = NCols(h, x.A)

-----------------------------------------------------------------------------
(* sparse direct solver *)
SdPre(h, op, a) ==
  CASE op = "new" -> a.form = "default" \/ (IsK(h, a.A, {"sp"}) /\ h[a.A].t = "d" /\ h[a.A].r = h[a.A].c)
    [] op = "solve" ->
         LET n == Len(h[a.S].rows)
         IN /\ IsK(h, a.S, {"sd"}) /\ h[a.S].k = "sd" /\ IsVecT(h, a.b, "d") /\ LenOf(h, a.b) = n
            /\ a.form = "view" => IsVecT(h, a.z, "d") /\ LenOf(h, a.z) = n
            /\ a.form = "resize" => IsK(h, a.z, {"vec"}) /\ h[a.z].t = "d" /\ ~Pinned(h, a.z)
SdEff(h, op, a, e) ==
  CASE op = "new" -> Do(Put(h, a.z, [k |-> "sd", rows |-> IF a.form = "default" THEN <<>> ELSE RowsOfSp(h[a.A])]))
    [] op = "solve" ->
         LET A == h[a.S].rows
             n == Len(A)
             R == IF a.tr = 1 THEN TransRows(A, n, n) ELSE A
             b == VecOf(h, a.b)
             x == IF a.z \in DOMAIN e.d THEN e.d[a.z].v ELSE IF Has(h, a.z) THEN VecOf(h, a.z) ELSE <<>>
             good == Len(x) = n
         IN [h |-> IF a.form = "view" /\ good THEN SetVec(h, a.z, x) ELSE Put(h, a.z, Vec("d", x)), r |-> <<>>, m |-> memo,
             ok |-> good /\ Solves(R, b, x)]
SdMatch(x, o) == o = [k |-> "sd", r |-> Len(x.rows), c |-> Len(x.rows)]
=============================================================================
