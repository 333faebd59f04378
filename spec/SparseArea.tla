----------------------------- MODULE SparseArea -----------------------------
(* Sparse matrices: C01, C03, C04, C05.  The order of entries within a row  *)
(* is the code's choice (except after SortIndices); everything else is not. *)
EXTENDS Base

IsSp(h, s) == IsK(h, s, {"sp"})
IsSpT(h, s, t) == IsSp(h, s) /\ h[s].t = t
IsDn(h, s) == IsK(h, s, {"dn"})

(* the same stored pattern and order with new values *)
WithX(m, f(_, _, _)) ==                    \* f(row, col, value), 0-based
  [m EXCEPT !.x = TLCEval(Concat([i \in 1..m.r |-> [q \in 1..(m.p[i + 1] - m.p[i]) |->
                    f(i - 1, m.j[m.p[i] + q], m.x[m.p[i] + q])]]))]

IsDiagonal(m) == m.r = m.c /\ Nnz(m) = m.r /\ \A i \in 1..m.r : m.j[i] = i - 1 /\ m.p[i] = i - 1

SortRows(m) == MkSp(m.t, m.r, m.c, Rows(m))

MixT(t, u) == IF t = "i" /\ u = "i" THEN "i" ELSE "d"

SpMul(A, B, t) ==
  LET RB == Rows(B)
  IN MkSp(t, A.r, B.c, TLCEval(
    [i \in 1..A.r |->
       LET a == RowFcn(A, i - 1)
           cols == UNION {DOMAIN RB[q + 1] : q \in DOMAIN a}
       IN TLCEval([c \in cols |-> Descale(SumOver({q \in DOMAIN a : c \in DOMAIN RB[q + 1]}, LAMBDA q : a[q] * RB[q + 1][c]))])]))

SpTrans(A, t) ==
  LET R == Rows(A)
  IN MkSp(t, A.c, A.r, TLCEval([c \in 1..A.c |-> TLCEval([i \in {i \in 0..(A.r - 1) : (c - 1) \in DOMAIN R[i + 1]} |-> R[i + 1][c - 1]])]))

PosOf(cols, c) == CHOOSE q \in 1..Len(cols) : cols[q] = c
SpSub(A, rows, cols) ==
  MkSp(A.t, Len(rows), Len(cols),
    [i \in 1..Len(rows) |-> LET f == RowFcn(A, rows[i])
                            IN TLCEval([q \in {q \in 0..(Len(cols) - 1) : cols[q + 1] \in DOMAIN f} |-> f[cols[q + 1]]])])

AccPre(m, a) ==
  CASE a.form \in {"rowidx", "rowdata", "rowview", "rowsize"} -> a.i >= 0 /\ a.i < m.r
    [] a.form = "diag" -> m.r = m.c
    [] OTHER -> TRUE
Acc(m, a) ==
  CASE a.form = "rows" -> m.r
    [] a.form = "cols" -> m.c
    [] a.form = "nnz" -> Nnz(m)
    [] a.form \in {"indptr", "mindptr"} -> m.p
    [] a.form \in {"indices", "mindices"} -> m.j
    [] a.form \in {"data", "mdata"} -> m.x
    [] a.form \in {"rowidx", "rowview"} -> SubSeq(m.j, m.p[a.i + 1] + 1, m.p[a.i + 2])
    [] a.form = "rowdata" -> SubSeq(m.x, m.p[a.i + 1] + 1, m.p[a.i + 2])
    [] a.form = "rowsize" -> m.p[a.i + 2] - m.p[a.i + 1]
    [] a.form = "diag" -> [i \in 1..m.r |-> At(m, i - 1, i - 1)]
    [] a.form = "sum" -> SumSeq(m.x)
    [] a.form = "maxnorm" -> SumSeq([k \in 1..Len(m.x) |-> Abs(m.x[k])])

ScaleDom(h, a) == IF "D" \in DOMAIN a THEN h[a.D].x ELSE a.x

SparsePre(h, op, a) ==
  CASE op = "new" -> (CASE a.form \in {"size"} -> a.r >= 0
                       [] a.form = "empty" -> a.r >= 0 /\ a.c >= 0
                       [] a.form = "csr" -> SpOK([r |-> a.r, c |-> a.c, p |-> a.p, j |-> a.j, x |-> a.x])
                       [] OTHER -> TRUE)
    [] op = "acc" -> IsSpT(h, a.A, a.t) /\ AccPre(h[a.A], a)
    [] op = "viewidx" -> IsSpT(h, a.A, a.t) /\ a.i >= 0 /\ a.i < h[a.A].r /\ F = 1
    [] op = "setdata" -> IsSpT(h, a.A, a.t) /\ a.i >= 0 /\ a.i < Nnz(h[a.A])
    [] op = "todense" -> IsSpT(h, a.A, a.t) /\ (a.form = "out" => IsDn(h, a.z) /\ ~Pinned(h, a.z))
    [] op = "sort" -> IsSpT(h, a.A, a.t) /\ ~Pinned(h, a.A)
    [] op = "mulv" -> /\ IsSpT(h, a.A, a.t) /\ IsVecT(h, a.x, a.u)
                      /\ LenOf(h, a.x) = IF a.tr = 1 THEN h[a.A].r ELSE h[a.A].c
                      /\ a.form = "view" => IsVecT(h, a.z, a.v) /\ LenOf(h, a.z) = IF a.tr = 1 THEN h[a.A].c ELSE h[a.A].r
    [] op = "muld" -> /\ IsSpT(h, a.A, a.t) /\ IsDn(h, a.B)
                      /\ h[a.B].r = IF a.form \in {"multat", "multat-out"} THEN h[a.A].r ELSE h[a.A].c
                      /\ a.form \in {"mult-out", "multat-out", "multct-out"} => IsDn(h, a.z) /\ ~Pinned(h, a.z) /\ a.z # a.B
    [] op = "mul" -> IsSpT(h, a.A, a.t) /\ IsSpT(h, a.B, a.u) /\ h[a.A].c = h[a.B].r /\ (a.form = "marker" => IsK(h, a.w, {"arr"}))
    [] op = "transpose" -> IsSpT(h, a.A, a.t)
    [] op = "submat" -> /\ IsSpT(h, a.A, a.t) /\ InRange(a.rows, h[a.A].r) /\ InRange(a.cols, h[a.A].c) /\ Distinct(a.cols)
                        /\ a.form = "marker" => /\ IsK(h, a.w, {"arr"}) /\ Len(h[a.w].v) >= h[a.A].c
                                                /\ \A q \in 1..h[a.A].c : h[a.w].v[q] = -F
    [] op = "adddiag" -> IsSpT(h, a.A, a.t) /\ h[a.A].r = h[a.A].c /\ (a.form = "vec" => Len(a.x) = h[a.A].r)
    [] op = "sca" -> IsSpT(h, a.A, a.t) /\ (a.form \in {"div", "set"} => a.val # 0)
    [] op = "expr" -> IsSpT(h, a.A, a.t)
    [] op = "scale" -> LET m == h[a.A]
                           d == ScaleDom(h, a)
                       IN /\ IsSpT(h, a.A, a.t)
                          /\ "D" \in DOMAIN a => IsSpT(h, a.D, a.t) /\ IsDiagonal(h[a.D])
                          /\ Len(d) = IF a.form \in {"rows", "irows"} THEN m.r ELSE m.c
                          /\ a.form = "irows" => \A i \in 1..m.r : d[i] # 0
                          /\ a.form = "icols" => \A q \in Rng(m.j) : d[q + 1] # 0
    [] op = "permcols" -> IsSpT(h, a.A, a.t) /\ Len(a.perm) = h[a.A].c /\ InRange(a.perm, h[a.A].c) /\ Distinct(a.perm) /\ ~Pinned(h, a.A)
    [] op = "elim" -> LET m == h[a.A] IN
         /\ IsSpT(h, a.A, a.t)
         /\ (CASE a.form = "rowcol" -> a.i >= 0 /\ a.i < m.r /\ a.i < m.c
              [] a.form = "row" -> a.i >= 0 /\ a.i < m.r
              [] a.form = "col" -> a.i >= 0 /\ a.i < m.c
              [] a.form = "rowcolm" -> m.r = m.c /\ Len(a.mask) >= m.c
              [] a.form = "colm" -> Len(a.mask) >= m.c
              [] a.form = "colmb" -> Len(a.mask) >= m.c /\ IsVecT(h, a.x, "d") /\ IsVecT(h, a.b, "d")
                                     /\ LenOf(h, a.x) = m.c /\ LenOf(h, a.b) = m.r)
    [] op = "elimzeros" -> IsSpT(h, a.A, a.t) /\ ~Pinned(h, a.A)

SparseEff(h, op, a, e) ==
  CASE op = "new" ->
         LET m == CASE a.form = "default" -> MkSp(a.t, 0, 0, <<>>)
                    [] a.form = "size" -> [k |-> "sp", t |-> a.t, r |-> a.r, c |-> a.r, p |-> Zeros(a.r + 1), j |-> <<>>, x |-> <<>>]
                    [] a.form = "empty" -> [k |-> "sp", t |-> a.t, r |-> a.r, c |-> a.c, p |-> Zeros(a.r + 1), j |-> <<>>, x |-> <<>>]
                    [] a.form = "diag" -> LET n == Len(a.x) IN
                         [k |-> "sp", t |-> a.t, r |-> n, c |-> n, p |-> [i \in 1..(n + 1) |-> i - 1], j |-> [i \in 1..n |-> i - 1], x |-> a.x]
                    [] a.form = "csr" -> [k |-> "sp", t |-> a.t, r |-> a.r, c |-> a.c, p |-> a.p, j |-> a.j, x |-> a.x]
         IN Do(Put(h, a.z, m))
    [] op = "acc" -> Ret(h, Acc(h[a.A], a))
    [] op = "viewidx" -> LET m == h[a.A] IN
         Do(Put(h, a.z, [k |-> "view", t |-> "i", o |-> a.A, f |-> "j", off |-> m.p[a.i + 1], n |-> m.p[a.i + 2] - m.p[a.i + 1]]))
    [] op = "setdata" -> Do([h EXCEPT ![a.A] = [@ EXCEPT !.x = [@ EXCEPT ![a.i + 1] = a.val]]])
    [] op = "todense" ->
         LET m == h[a.A]
             R == RowsOfSp(m)
         IN Do(Put(h, a.z, IF a.tr = 1 THEN DnOfRows(m.c, m.r, TransRows(R, m.r, m.c)) ELSE DnOfRows(m.r, m.c, R)))
    [] op = "sort" ->
         LET s == SortRows(h[a.A]) IN
         [h |-> [h EXCEPT ![a.A] = s], r |-> <<>>, m |-> memo,
          ok |-> IF a.A \in DOMAIN e.d THEN e.d[a.A].j = s.j /\ e.d[a.A].x = s.x ELSE h[a.A].j = s.j]
    [] op = "mulv" ->
         LET m == h[a.A]
             R == RowsOfSp(m)
             x == VecOf(h, a.x)
             y == IF a.tr = 1 THEN MulVecT(R, m.r, m.c, x) ELSE MulVec(R, m.r, m.c, x)
         IN Do(IF a.form = "view" THEN SetVec(h, a.z, y) ELSE Put(h, a.z, Vec(a.t, y)))
    [] op = "muld" ->
         LET m == h[a.A]
             b == h[a.B]
             R == RowsOfSp(m)
             at == a.form \in {"multat", "multat-out"}
             n == IF at THEN m.c ELSE m.r
             q == IF at THEN m.r ELSE m.c
             C == MulRows(IF at THEN TransRows(R, m.r, m.c) ELSE R, RowsOfDn(b), n, q, b.c)
         IN Do(Put(h, a.z, IF a.form \in {"multct", "multct-out"} THEN DnOfRows(b.c, n, TransRows(C, n, b.c)) ELSE DnOfRows(n, b.c, C)))
    [] op = "mul" ->
         LET h2 == Put(h, a.z, SpMul(h[a.A], h[a.B], MixT(a.t, a.u)))
         IN Do(IF a.form = "marker" THEN (IF a.w \in DOMAIN e.d THEN Put(h2, a.w, Arr("i", e.d[a.w].v)) ELSE h2) ELSE h2)
    [] op = "transpose" -> Do(Put(h, a.z, SpTrans(h[a.A], a.u)))
    [] op = "submat" -> Do(Put(h, a.z, SpSub(h[a.A], a.rows, a.cols)))
    [] op = "adddiag" -> Do([h EXCEPT ![a.A] = WithX(@, LAMBDA i, c, v : IF i = c THEN v + (IF a.form = "val" THEN a.val ELSE a.x[i + 1]) ELSE v)])
    [] op = "sca" ->
         Ret([h EXCEPT ![a.A] = WithX(@, LAMBDA i, c, v :
                (CASE a.form = "mul" -> Fit(a.t, v * a.val)
                  [] a.form = "div" -> IF a.t = "i" /\ a.u = "i" THEN DivI(v, a.val) ELSE DivD(v, a.val)
                  [] OTHER -> IF a.t = "i" THEN TruncI(a.val * F) ELSE a.val))], TRUE)
    [] op = "expr" -> Do(Put(h, a.z, WithX(h[a.A], LAMBDA i, c, v : Fit(a.t, v * a.val))))
    [] op = "scale" ->
         LET d == ScaleDom(h, a) IN
         Do([h EXCEPT ![a.A] = WithX(@, LAMBDA i, c, v :
                (CASE a.form = "rows" -> Fit(a.t, v * d[i + 1])
                  [] a.form = "cols" -> Fit(a.t, v * d[c + 1])
                  [] a.form = "irows" -> DivT(a.t, v, d[i + 1])
                  [] a.form = "icols" -> DivT(a.t, v, d[c + 1])))])
    [] op = "permcols" -> Do([h EXCEPT ![a.A] = [@ EXCEPT !.j = [q \in 1..Len(@) |-> a.perm[@[q] + 1]]]])
    [] op = "elim" ->
         LET m == h[a.A]
             Marked(i) == a.mask[i + 1] # 0
             new == CASE a.form = "rowcol" -> WithX(m, LAMBDA i, c, v : IF i = a.i \/ c = a.i THEN (IF i = c THEN One ELSE 0) ELSE v)
                      [] a.form = "rowcolm" -> WithX(m, LAMBDA i, c, v : IF Marked(i) \/ Marked(c) THEN (IF i = c THEN One ELSE 0) ELSE v)
                      [] a.form = "row" -> WithX(m, LAMBDA i, c, v : IF i = a.i THEN 0 ELSE v)
                      [] a.form = "col" -> WithX(m, LAMBDA i, c, v : IF c = a.i THEN 0 ELSE v)
                      [] OTHER -> WithX(m, LAMBDA i, c, v : IF Marked(c) THEN 0 ELSE v)
             h2 == Put(h, a.A, new)
         IN Do(IF a.form # "colmb" THEN h2
               ELSE LET R == RowsOfSp(m)
                        x == VecOf(h, a.x)
                        b == VecOf(h, a.b)
                    IN SetVec(h2, a.b, [i \in 1..m.r |->
                         Descale(b[i] * F - SumTo(m.c, LAMBDA c : IF Marked(c - 1) THEN R[i][c] * x[c] ELSE 0))]))
    [] op = "elimzeros" ->
         LET tol == IF "tol" \in DOMAIN a THEN a.tol ELSE 0
             R == Rows(h[a.A])
         IN Do([h EXCEPT ![a.A] = MkSp(a.t, @.r, @.c, [i \in 1..@.r |->
                 [c \in {c \in DOMAIN R[i] : Abs(R[i][c]) > tol} |-> R[i][c]]])])
=============================================================================
