------------------------------- MODULE ParArea ------------------------------
(* Distributed objects (C22): the parlinalgcpp module.                       *)
(*   pm   [k, n, L]   matrix on n ranks; L[r] = [rs, cs, d, o, map]: row and  *)
(*        column range of the rank (<<first, past last, global>>), the block  *)
(*        of its own columns, the block of the others, their global indices   *)
(*   pv   [k, n, L]   vector; L[r] = [v, gs]                                  *)
(*   ps   [k, ty, n, S, L, ...]  solver of the matrix L                       *)
(* Contract throughout: every rank's part, put together, is what the          *)
(* sequential operation on the global object gives, for every partition.     *)
(* The pattern that sums, products and transposes store is the code's choice; *)
(* objects built from blocks, and edited in place, keep exactly their pattern.*)
EXTENDS NumArea, SparseArea

Real(M) == M.L[1].rs # <<>>
GRows(M) == IF Real(M) THEN M.L[1].rs[3] ELSE 0
GCols(M) == IF Real(M) THEN M.L[1].cs[3] ELSE 0
Lo(s) == IF s = <<>> THEN 0 ELSE s[1]
Hi(s) == IF s = <<>> THEN 0 ELSE s[2]

StartsOK(S, n) ==                                  \* contiguous ranges
  /\ \A r \in 1..n : Len(S[r]) = 3 /\ S[r][1] >= 0 /\ S[r][1] <= S[r][2] /\ S[r][3] = S[n][2]
  /\ S[1][1] = 0
  /\ \A r \in 1..(n - 1) : S[r][2] = S[r + 1][1]
PmOK(M) ==
  /\ M.n = Len(M.L) /\ M.n > 0
  /\ IF M.L[1].rs = <<>>
       THEN \A r \in 1..M.n : M.L[r].rs = <<>> /\ M.L[r].cs = <<>> /\ M.L[r].map = <<>> /\ SpOK(M.L[r].d) /\ SpOK(M.L[r].o)
                              /\ M.L[r].d.r = 0 /\ M.L[r].d.c = 0 /\ M.L[r].o.r = 0 /\ M.L[r].o.c = 0
       ELSE /\ StartsOK([r \in 1..M.n |-> M.L[r].rs], M.n)
            /\ StartsOK([r \in 1..M.n |-> M.L[r].cs], M.n)
            /\ \A r \in 1..M.n :
                 LET q == M.L[r] IN
                 /\ SpOK(q.d) /\ SpOK(q.o)
                 /\ q.d.r = q.rs[2] - q.rs[1] /\ q.d.c = q.cs[2] - q.cs[1]
                 /\ q.o.r = q.d.r /\ q.o.c = Len(q.map)
                 /\ \A i \in 1..Len(q.map) : /\ q.map[i] >= 0 /\ q.map[i] < q.cs[3]
                                             /\ q.map[i] < q.cs[1] \/ q.map[i] >= q.cs[2]
                                             /\ i > 1 => q.map[i - 1] < q.map[i]
(* the same blocks, up to the order of entries within rows *)
PmSame(x, o) ==
  /\ x.n = o.n /\ Len(x.L) = Len(o.L)
  /\ \A r \in 1..x.n : /\ x.L[r].rs = o.L[r].rs /\ x.L[r].cs = o.L[r].cs /\ x.L[r].map = o.L[r].map
                       /\ SameSp(x.L[r].d, o.L[r].d) /\ SameSp(x.L[r].o, o.L[r].o)

(* the global matrix, row by row *)
LocalRows(q) ==
  TLCEval([i \in 1..q.d.r |->
     LET d == RowFcn(q.d, i - 1)
         o == RowFcn(q.o, i - 1)
     IN TLCEval([c \in 1..q.cs[3] |->
           IF c - 1 >= q.cs[1] /\ c - 1 < q.cs[2] THEN (IF (c - 1 - q.cs[1]) \in DOMAIN d THEN d[c - 1 - q.cs[1]] ELSE 0)
           ELSE LET K == {k \in DOMAIN o : q.map[k + 1] = c - 1} IN IF K = {} THEN 0 ELSE o[CHOOSE k \in K : TRUE]])])
PmRows(M) == IF Real(M) THEN TLCEval(Concat([r \in 1..M.n |-> LocalRows(M.L[r])])) ELSE <<>>

(* o is a matrix with these global contents and these ranges *)
PmIs(o, n, RS, CS, R) == /\ o.k = "pm" /\ o.n = n /\ PmOK(o) /\ Real(o)
                         /\ \A r \in 1..n : o.L[r].rs = RS[r] /\ o.L[r].cs = CS[r]
                         /\ PmRows(o) = R
RSof(M) == [r \in 1..M.n |-> M.L[r].rs]
CSof(M) == [r \in 1..M.n |-> M.L[r].cs]

(* canonical distributed form of a global matrix: what is not zero (used where the model has to choose) *)
PmFrom(n, RS, CS, R) ==
  [k |-> "pm", n |-> n, L |-> TLCEval([r \in 1..n |->
     LET lo == RS[r][1]
         m == RS[r][2] - lo
         c0 == CS[r][1]
         c1 == CS[r][2]
         out == {c \in 0..(CS[r][3] - 1) : (c < c0 \/ c >= c1) /\ \E i \in 1..m : R[lo + i][c + 1] # 0}
         map == SetToSortSeq(out, LAMBDA x, y : x < y)
     IN [rs |-> RS[r], cs |-> CS[r], map |-> map,
         d |-> MkSp("d", m, c1 - c0, TLCEval([i \in 1..m |-> TLCEval([c \in {c \in 0..(c1 - c0 - 1) : R[lo + i][c0 + c + 1] # 0} |-> R[lo + i][c0 + c + 1]])])),
         o |-> MkSp("d", m, Len(map), TLCEval([i \in 1..m |-> TLCEval([c \in {c \in 0..(Len(map) - 1) : R[lo + i][map[c + 1] + 1] # 0} |-> R[lo + i][map[c + 1] + 1]])]))]])]

(* vectors *)
PvVec(x) == TLCEval(Concat([r \in 1..x.n |-> x.L[r].v]))
Piece(v, s) == SubSeq(v, s[1] + 1, s[2])
PvOf(n, S, v) == [k |-> "pv", n |-> n, L |-> TLCEval([r \in 1..n |-> [v |-> Piece(v, S[r]), gs |-> S[r][3]]])]
Fits(x, n, S) == x.n = n /\ \A r \in 1..n : Len(x.L[r].v) = S[r][2] - S[r][1] /\ x.L[r].gs = S[r][3]
Parted(x) == \A r \in 1..x.n : x.L[r].gs > 0                 \* not a default vector
SameParts(x, y) == x.n = y.n /\ \A r \in 1..x.n : Len(x.L[r].v) = Len(y.L[r].v) /\ x.L[r].gs = y.L[r].gs
PvMap(x, f(_)) == [x EXCEPT !.L = TLCEval([r \in 1..x.n |-> [x.L[r] EXCEPT !.v = TLCEval([i \in 1..Len(x.L[r].v) |-> f(x.L[r].v[i])])]])]

Offs(off, r) == <<off[r], off[r + 1], off[Len(off)]>>
OffOK(off, n) == Len(off) = n + 1 /\ off[1] = 0 /\ (\A i \in 1..n : off[i] <= off[i + 1]) /\ off[n] < off[n + 1]     \* the last rank owns something
BlkSp(b) == [k |-> "sp", t |-> "d", r |-> b.r, c |-> b.c, p |-> b.p, j |-> b.j, x |-> b.x]
NoSp(r) == [k |-> "sp", t |-> "d", r |-> r, c |-> 0, p |-> Zeros(r + 1), j |-> <<>>, x |-> <<>>]
DefPm(n) == [k |-> "pm", n |-> n, L |-> [r \in 1..n |-> [rs |-> <<>>, cs |-> <<>>, d |-> NoSp(0), o |-> NoSp(0), map |-> <<>>]]]
BuiltPm(a) ==
  [k |-> "pm", n |-> a.n, L |-> TLCEval([r \in 1..a.n |->
     LET b == a.L[r]
         diag == a.form \in {"diag", "sqdiag", "rectdiag"}
     IN [rs |-> Offs(a.rs, r), cs |-> Offs(a.cs, r), d |-> BlkSp(b.d),
         o |-> IF diag THEN NoSp(b.d.r) ELSE BlkSp(b.o), map |-> IF diag THEN <<>> ELSE b.map]])]
IsPm(h, s) == IsK(h, s, {"pm"})
IsPv(h, s) == IsK(h, s, {"pv"})
IsPs(h, s) == IsK(h, s, {"ps"})
RealPm(h, s) == IsPm(h, s) /\ Real(h[s])
SquarePm(M) == \A r \in 1..M.n : M.L[r].rs = M.L[r].cs
HasDiag(M) == SquarePm(M) /\ \A r \in 1..M.n : \A i \in 0..(M.L[r].d.r - 1) : i \in RowCols(M.L[r].d, i)
EditPm(M, f(_, _, _)) ==                                   \* f(rank, local row, value)
  [M EXCEPT !.L = TLCEval([r \in 1..M.n |-> [M.L[r] EXCEPT !.d = WithX(@, LAMBDA i, c, v : f(r, i, v)), !.o = WithX(@, LAMBDA i, c, v : f(r, i, v))]])]

PmPre(h, op, a) ==
  CASE op = "new" -> a.n > 0 /\ (a.form = "default" \/ (OffOK(a.rs, a.n) /\ OffOK(a.cs, a.n) /\ (a.form = "sqdiag" => a.rs = a.cs) /\ PmOK(BuiltPm(a))))
    [] op = "split" -> /\ IsK(h, a.A, {"sp"}) /\ h[a.A].t = "d" /\ h[a.A].r = h[a.A].c /\ Len(a.part) = h[a.A].r
                       /\ \A r \in 0..(a.n - 1) : r \in Rng(a.part)
                       /\ InRange(a.part, a.n)
    [] op = "mulv" -> LET M == h[a.A]
                          X == IF a.tr = 1 THEN RSof(M) ELSE CSof(M)
                          Y == IF a.tr = 1 THEN CSof(M) ELSE RSof(M)
                      IN /\ RealPm(h, a.A) /\ IsPv(h, a.x) /\ Fits(h[a.x], M.n, X)
                         /\ a.form \notin {"pret", "ret", "opret"} => IsPv(h, a.z) /\ a.z # a.x /\ Fits(h[a.z], M.n, Y)
    [] op = "mul" -> RealPm(h, a.A) /\ RealPm(h, a.B) /\ h[a.A].n = h[a.B].n /\ CSof(h[a.A]) = RSof(h[a.B])
    [] op = "trans" -> RealPm(h, a.A)
    [] op = "rap" -> LET R == h[IF "R" \in DOMAIN a THEN a.R ELSE a.P] IN
                     /\ RealPm(h, a.A) /\ RealPm(h, a.P) /\ ("R" \in DOMAIN a => RealPm(h, a.R))
                     /\ h[a.A].n = h[a.P].n /\ R.n = h[a.A].n
                     /\ CSof(h[a.A]) = RSof(h[a.P]) /\ RSof(R) = RSof(h[a.A])
    [] op = "add" -> /\ RealPm(h, a.A) /\ RealPm(h, a.B) /\ h[a.A].n = h[a.B].n
                     /\ RSof(h[a.A]) = RSof(h[a.B]) /\ CSof(h[a.A]) = CSof(h[a.B]) /\ a.extra >= 0
    [] op = "sca" -> RealPm(h, a.A) /\ (a.form = "set" => a.val # 0)
    [] op = "adddiag" -> RealPm(h, a.A) /\ HasDiag(h[a.A]) /\ (a.form # "val" => Len(a.xs) = h[a.A].n /\ \A r \in 1..h[a.A].n : Len(a.xs[r]) = h[a.A].L[r].d.r)
    [] op = "scale" -> /\ RealPm(h, a.A) /\ Len(a.xs) = h[a.A].n
                       /\ \A r \in 1..h[a.A].n : Len(a.xs[r]) = h[a.A].L[r].d.r /\ (a.form \in {"irows", "irowsm"} => 0 \notin Rng(a.xs[r]))
    [] op = "elim" -> RealPm(h, a.A) /\ Len(a.idx) = h[a.A].n /\ \A r \in 1..h[a.A].n : a.idx[r] >= -1 /\ a.idx[r] < h[a.A].L[r].d.r
    [] op = "acc" -> IsPm(h, a.A) /\ (a.form = "maxnorm" => Real(h[a.A]))
    [] op = "pkg" -> RealPm(h, a.A)
    [] op = "l1" -> RealPm(h, a.A) /\ a.opt \in 1..4 /\ a.len >= 0 /\ HasDiag(h[a.A])
    [] op = "offsets" -> a.sizes # <<>> /\ \A r \in 1..Len(a.sizes) : Len(a.sizes[r]) = Len(a.sizes[1])
                         /\ (a.form = "int" => Len(a.sizes[1]) = 1) /\ \A i \in 1..Len(a.sizes[r]) : a.sizes[r][i] >= 0
    [] op = "sortmap" -> /\ IsK(h, a.A, {"coo"}) /\ h[a.A].t = "d" /\ BSized(h[a.A]) /\ Len(a.map) = BCols(h[a.A]) /\ Distinct(a.map)

EachRank(n, v) == [r \in 1..n |-> v]                    \* one answer for all ranks
AllX(M) == Concat([r \in 1..M.n |-> M.L[r].d.x \o M.L[r].o.x])
AbsDiag(q, i) == Abs(At(q.d, i, i))
SumX(m, i, f(_)) == SumOver(RowIdx(m, i), LAMBDA k : f(m.x[k]))
L1(q, opt, i) ==
  LET D == AbsDiag(q, i)
      od == SumX(q.o, i, LAMBDA v : Abs(v))
      s == CASE opt = 1 -> SumX(q.d, i, LAMBDA v : Abs(v)) + od
             [] opt = 2 -> D + od
             [] opt = 3 -> Descale(SumX(q.d, i, LAMBDA v : v * v) + SumX(q.o, i, LAMBDA v : v * v))
             [] opt = 4 -> IF 3 * (2 * D + od) <= 8 * D THEN D ELSE IF od % 2 = 0 THEN D + od \div 2 ELSE FRAC
  IN IF At(q.d, i, i) < 0 THEN (IF s = FRAC THEN FRAC ELSE -s) ELSE s
(* global columns of rank q's map that rank p owns, as p's local columns *)
Needs(M, p, q) == [i \in 1..Len(SelectSeq(M.L[q].map, LAMBDA c : c >= M.L[p].cs[1] /\ c < M.L[p].cs[2])) |->
                     SelectSeq(M.L[q].map, LAMBDA c : c >= M.L[p].cs[1] /\ c < M.L[p].cs[2])[i] - M.L[p].cs[1]]
PkgOK(M, p, g) ==                                  \* g: the communication package of rank p
  LET ns == Len(g.sp)
      nr == Len(g.rp)
      Seg(s, st, i) == SubSeq(s, st[i] + 1, st[i + 1])
  IN /\ g.ok = 1
     /\ Distinct(g.sp) /\ Distinct(g.rp)
     /\ Len(g.ss) = ns + 1 /\ g.ss[1] = 0 /\ g.ss[ns + 1] = Len(g.se) /\ \A i \in 1..ns : g.ss[i] <= g.ss[i + 1]
     /\ Len(g.rv) = nr + 1 /\ g.rv[1] = 0 /\ g.rv[nr + 1] = Len(M.L[p].map) /\ \A i \in 1..nr : g.rv[i] <= g.rv[i + 1]
     /\ \A q \in 1..M.n : (q - 1) \in Rng(g.sp) <=> (q # p /\ Needs(M, p, q) # <<>>)
     /\ \A i \in 1..ns : Seg(g.se, g.ss, i) = Needs(M, p, g.sp[i] + 1)
     /\ \A q \in 1..M.n : (q - 1) \in Rng(g.rp) <=> (q # p /\ Needs(M, q, p) # <<>>)
     /\ \A i \in 1..nr : \A k \in (g.rv[i] + 1)..g.rv[i + 1] :
          LET c == M.L[p].map[k] IN c >= M.L[g.rp[i] + 1].cs[1] /\ c < M.L[g.rp[i] + 1].cs[2]
SortMapPerm(map) == [i \in 1..Len(map) |-> Cardinality({k \in 1..Len(map) : map[k] < map[i]})]

(* vertices renumbered by owner, in their order *)
SplitOrder(part, n) == Concat([r \in 1..n |-> SelectSeq([i \in 1..Len(part) |-> i], LAMBDA i : part[i] = r - 1)])
SplitStarts(part, n) == LET cnt(r) == Cardinality({i \in 1..Len(part) : part[i] < r})
                        IN [r \in 1..n |-> <<cnt(r - 1), cnt(r), Len(part)>>]

Descale2(v) == IF v % (F * F) = 0 THEN v \div (F * F) ELSE FRAC
(* Q' M P, n x q, n x m, m x p; rounded once *)
TripleRows(Q, M, P, n, m, q, p) ==
  LET MP == TLCEval([i \in 1..n |-> TLCEval([c \in 1..p |-> SumTo(m, LAMBDA k : M[i][k] * P[k][c])])])
  IN TLCEval([i \in 1..q |-> TLCEval([c \in 1..p |-> Descale2(SumTo(n, LAMBDA k : Q[k][i] * MP[k][c]))])])
(* the products above stay in range *)
TripleFits(h, a) == LET mx(s) == MaxAbs(AllX(h[s])) + 1 IN
                    LET M == mx(a.A)
                        P == mx(a.P)
                        R == IF "R" \in DOMAIN a THEN mx(a.R) ELSE P
                    IN M <= 5000 /\ P <= 5000 /\ R <= 5000 /\ M * P <= 1000000 /\ R * ((M * P) \div 1000 + 1) * GRows(h[a.A]) * GCols(h[a.A]) <= 2000000

(* what a call that builds a matrix with pattern of its own choice must contain: [n, RS, CS, R] *)
PmResult(h, op, a) ==
  LET M == h[a.A] IN
  CASE op = "split" -> LET o == SplitOrder(a.part, a.n)
                           S == SplitStarts(a.part, a.n)
                           R == RowsOfSp(M)
                       IN [n |-> a.n, RS |-> S, CS |-> S, R |-> TLCEval([i \in 1..Len(o) |-> TLCEval([c \in 1..Len(o) |-> R[o[i]][o[c]]])])]
    [] op = "mul" -> LET B == h[a.B] IN [n |-> M.n, RS |-> RSof(M), CS |-> CSof(B), R |-> MulRows(PmRows(M), PmRows(B), GRows(M), GCols(M), GCols(B))]
    [] op = "trans" -> [n |-> M.n, RS |-> CSof(M), CS |-> RSof(M), R |-> TransRows(PmRows(M), GRows(M), GCols(M))]
    [] op = "rap" -> LET P == h[a.P]
                         Q == h[IF "R" \in DOMAIN a THEN a.R ELSE a.P]
                     IN [n |-> M.n, RS |-> CSof(Q), CS |-> CSof(P), R |-> TripleRows(PmRows(Q), PmRows(M), PmRows(P), GRows(M), GCols(M), GCols(Q), GCols(P))]
    [] op = "add" -> LET X == PmRows(M)
                         Y == PmRows(h[a.B])
                         al == IF a.form = "2" THEN One ELSE a.alpha
                         be == (IF a.sub = 1 THEN -1 ELSE 1) * (IF a.form = "2" THEN One ELSE a.beta)
                     IN [n |-> M.n, RS |-> RSof(M), CS |-> CSof(M),
                         R |-> TLCEval([i \in 1..GRows(M) |-> TLCEval([c \in 1..GCols(M) |-> Descale(al * X[i][c] + be * Y[i][c])])])]

PmEff(h, op, a, e) ==
  CASE op = "new" -> Do(Put(h, a.z, IF a.form = "default" THEN DefPm(a.n) ELSE BuiltPm(a)))
    [] op \in {"split", "mul", "trans", "rap", "add"} ->
         LET w == IF op = "rap" /\ ~TripleFits(h, a) THEN <<>> ELSE TLCEval(PmResult(h, op, a))
             o == IF a.z \in DOMAIN e.d THEN e.d[a.z] ELSE IF Has(h, a.z) THEN h[a.z] ELSE [k |-> "none"]
             good == o.k = "pm"
         IN [h |-> Put(h, a.z, o), r |-> <<>>, m |-> memo, ok |-> good /\ (w = <<>> \/ PmIs(o, w.n, w.RS, w.CS, w.R))]
    [] op = "mulv" ->
         LET M == h[a.A]
             x == PvVec(h[a.x])
             y == IF a.tr = 1 THEN MulVecT(PmRows(M), GRows(M), GCols(M), x) ELSE MulVec(PmRows(M), GRows(M), GCols(M), x)
             Y == IF a.tr = 1 THEN CSof(M) ELSE RSof(M)
         IN IF a.form \in {"ret", "opret"} THEN Ret(h, [r \in 1..M.n |-> Piece(y, Y[r])])
            ELSE Do(Put(h, a.z, PvOf(M.n, Y, y)))
    [] op = "sca" ->
         IF a.form = "neg" THEN Do(Put(h, a.z, EditPm(h[a.A], LAMBDA r, i, v : -v)))
         ELSE Do([h EXCEPT ![a.A] = EditPm(@, LAMBDA r, i, v : IF a.form = "mul" THEN Mul(v, a.val) ELSE a.val)])
    [] op = "adddiag" ->
         Do([h EXCEPT ![a.A] = [@ EXCEPT !.L = TLCEval([r \in 1..Len(@) |->
               [@[r] EXCEPT !.d = WithX(@, LAMBDA i, c, v : IF i = c THEN v + (IF a.form = "val" THEN a.val ELSE a.xs[r][i + 1]) ELSE v)]])]])
    [] op = "scale" ->
         Do([h EXCEPT ![a.A] = EditPm(@, LAMBDA r, i, v : IF a.form \in {"rows", "rowsm"} THEN Mul(v, a.xs[r][i + 1]) ELSE DivD(v, a.xs[r][i + 1]))])
    [] op = "elim" -> Do([h EXCEPT ![a.A] = EditPm(@, LAMBDA r, i, v : IF i = a.idx[r] THEN 0 ELSE v)])
    [] op = "acc" ->
         LET M == h[a.A]
             g(r) == M.L[r]
             Each(f(_)) == [r \in 1..M.n |-> f(r)]
         IN Ret(h, CASE a.form = "nnz" -> EachRank(M.n, Len(AllX(M)))
                     [] a.form = "maxnorm" -> EachRank(M.n, MaxAbs(AllX(M)))
                     [] a.form = "rows" -> Each(LAMBDA r : Hi(g(r).rs) - Lo(g(r).rs))
                     [] a.form = "cols" -> Each(LAMBDA r : Hi(g(r).cs) - Lo(g(r).cs))
                     [] a.form = "grows" -> EachRank(M.n, GRows(M))
                     [] a.form = "gcols" -> EachRank(M.n, GCols(M))
                     [] a.form = "rstarts" -> RSof(M)
                     [] a.form = "cstarts" -> CSof(M)
                     [] a.form = "comm" -> EachRank(M.n, IF Real(M) THEN 1 ELSE 0)
                     [] a.form = "myid" -> Each(LAMBDA r : IF Real(M) THEN r - 1 ELSE -1))
    [] op = "pkg" -> [h |-> h, r |-> <<e.r>>, m |-> memo,
                      ok |-> Len(e.r) = h[a.A].n /\ \A p \in 1..h[a.A].n : PkgOK(h[a.A], p, e.r[p])]
    [] op = "l1" -> LET M == h[a.A] IN
                    Ret(h, [r \in 1..M.n |-> [i \in 1..M.L[r].d.r |-> L1(M.L[r], a.opt, i - 1)]])
    [] op = "offsets" ->
         LET n == Len(a.sizes)
             Tot(r, i) == SumTo(r, LAMBDA q : a.sizes[q][i])
         IN Ret(h, [r \in 1..n |-> [i \in 1..Len(a.sizes[1]) |-> <<Tot(r - 1, i), Tot(r, i), Tot(n, i)>>]])
    [] op = "sortmap" ->
         LET q == SortMapPerm(a.map)
             b == h[a.A]
         IN [h |-> [h EXCEPT ![a.A] = [b EXCEPT !.e = TLCEval([k \in 1..Len(b.e) |-> [b.e[k] EXCEPT ![2] = q[@ + 1]]])]],
             r |-> <<SortSeq(a.map, LAMBDA x, y : x < y)>>, m |-> memo, ok |-> TRUE]

-----------------------------------------------------------------------------
PvPre(h, op, a) ==
  CASE op = "new" -> a.n > 0 /\ (a.form = "default" \/ (OffOK(a.ps, a.n) /\ (a.form = "copy" => Len(a.xs) = a.n /\ \A r \in 1..a.n : Len(a.xs[r]) = a.ps[r + 1] - a.ps[r])))
    [] op = "put" -> IsPv(h, a.x) /\ a.rank \in 0..(h[a.x].n - 1) /\ a.i >= 0 /\ a.i < Len(h[a.x].L[a.rank + 1].v)
    [] op = "ew" -> IsPv(h, a.x) /\ IsPv(h, a.y) /\ SameParts(h[a.x], h[a.y]) /\ (a.form = "div" => 0 \notin Rng(PvVec(h[a.y])))
    [] op \in {"fill", "sca"} -> IsPv(h, a.x)
    [] op = "dot" -> IsPv(h, a.x) /\ IsPv(h, a.y) /\ Parted(h[a.x]) /\ SameParts(h[a.x], h[a.y])
    [] op \in {"norm", "sum", "subavg"} -> IsPv(h, a.x) /\ Parted(h[a.x])
    [] op = "normalize" -> IsPv(h, a.x) /\ Parted(h[a.x]) /\ LET s == Sq(PvVec(h[a.x])) IN s # 0
PvEff(h, op, a, e) ==
  CASE op = "new" ->
         Do(Put(h, a.z, IF a.form = "default" THEN [k |-> "pv", n |-> a.n, L |-> [r \in 1..a.n |-> [v |-> <<>>, gs |-> 0]]]
              ELSE [k |-> "pv", n |-> a.n, L |-> TLCEval([r \in 1..a.n |->
                     [gs |-> a.ps[a.n + 1], v |-> CASE a.form = "zero" -> Zeros(a.ps[r + 1] - a.ps[r])
                                                    [] a.form = "const" -> Const(a.ps[r + 1] - a.ps[r], a.val)
                                                    [] OTHER -> a.xs[r]]])]))
    [] op = "put" -> Do([h EXCEPT ![a.x] = [@ EXCEPT !.L = [@ EXCEPT ![a.rank + 1] = [@ EXCEPT !.v = [@ EXCEPT ![a.i + 1] = a.val]]]]])
    [] op = "fill" -> Do([h EXCEPT ![a.x] = PvMap(@, LAMBDA v : a.val)])
    [] op = "ew" -> LET y == h[a.y] IN
         Do([h EXCEPT ![a.x] = [@ EXCEPT !.L = TLCEval([r \in 1..Len(@) |-> [@[r] EXCEPT !.v = TLCEval([i \in 1..Len(@) |->
               LET p == @[i]
                   q == y.L[r].v[i]
               IN CASE a.form = "add" -> p + q [] a.form = "sub" -> p - q [] a.form = "mul" -> Mul(p, q) [] OTHER -> DivD(p, q)])]])]])
    [] op = "sca" -> Do([h EXCEPT ![a.x] = PvMap(@, LAMBDA v : CASE a.form = "add" -> v + a.val [] a.form = "sub" -> v - a.val [] OTHER -> Mul(v, a.val))])
    [] op = "dot" -> LET x == PvVec(h[a.x])
                         y == PvVec(h[a.y])
                     IN Ret(h, EachRank(h[a.x].n, Descale(SumTo(Len(x), LAMBDA i : x[i] * y[i]))))
    [] op = "norm" -> Ret(h, EachRank(h[a.x].n, ExactSqrt(Sq(PvVec(h[a.x])))))
    [] op = "sum" -> Ret(h, IF a.form = "local" THEN [r \in 1..h[a.x].n |-> SumSeq(h[a.x].L[r].v)] ELSE EachRank(h[a.x].n, SumSeq(PvVec(h[a.x]))))
    [] op = "subavg" -> LET s == SumSeq(PvVec(h[a.x]))
                            n == h[a.x].L[1].gs
                        IN Do([h EXCEPT ![a.x] = PvMap(@, LAMBDA v : IF s % n = 0 THEN v - s \div n ELSE FRAC)])
    [] op = "normalize" -> LET s == ExactSqrt(Sq(PvVec(h[a.x]))) IN
                           Do([h EXCEPT ![a.x] = PvMap(@, LAMBDA v : IF s = FRAC THEN (IF v = 0 THEN 0 ELSE FRAC) ELSE DivD(v, s))])

-----------------------------------------------------------------------------
(* solvers: F = 1; the matrix has integer entries *)
PsOf(ty, n, M, x) == [k |-> "ps", ty |-> ty, n |-> n, L |-> M.L,
                      S |-> [r \in 1..n |-> [rs |-> M.L[r].rs, cs |-> M.L[r].cs, r |-> Hi(M.L[r].rs) - Lo(M.L[r].rs), c |-> Hi(M.L[r].cs) - Lo(M.L[r].cs)]]] @@ x
PsM(s) == [n |-> s.n, L |-> s.L]
DefPs == [M |-> "", ds |-> 0, max |-> 0, tol |-> 0, stype |-> 0, times |-> 0, weight |-> 0, omega |-> 0]
SpdPm(M) == Real(M) /\ HasDiag(M) /\ GRows(M) > 0 /\ PosDef(PmRows(M)) /\ MaxAbs2(PmRows(M)) <= 12 /\ GRows(M) <= 8 /\ \A r \in 1..M.n : M.L[r].d.r > 0
PsPre(h, op, a) ==
  CASE op = "new" -> a.n > 0 /\ (a.form = "default"
                       \/ (/\ F = 1 /\ RealPm(h, a.A) /\ h[a.A].n = a.n /\ SpdPm(h[a.A])
                           /\ "M" \in DOMAIN a => a.ty = "cg" /\ IsPs(h, a.M) /\ h[a.M].n = a.n /\ Real(h[a.M]) /\ h[a.M].ty \in {"amg", "sails", "diag", "smooth"} /\ RSof(h[a.M]) = RSof(h[a.A])
                           /\ a.form # "defaults" => a.max >= 0 /\ a.tol >= 0 /\ a.stype \in -7..3 /\ a.times >= 1 /\ a.weight \in 1..2 /\ a.omega \in {1, 2, 4}))
    [] op = "diagscaling" -> IsPs(h, a.S) /\ h[a.S].ty = "cg" /\ Real(h[a.S])
    [] op = "sailset" -> IsPs(h, a.S) /\ h[a.S].ty = "sails" /\ Real(h[a.S])
    [] op = "solve" -> /\ F = 1 /\ IsPs(h, a.S) /\ Real(h[a.S]) /\ IsPv(h, a.b) /\ IsPv(h, a.x)
                       /\ Fits(h[a.b], h[a.S].n, RSof(h[a.S])) /\ Fits(h[a.x], h[a.S].n, RSof(h[a.S]))
    [] op = "lobpcg" -> /\ F = 1 /\ RealPm(h, a.A) /\ SpdPm(h[a.A]) /\ h[a.A].n = a.n /\ a.ev >= 1 /\ a.ev <= GRows(h[a.A])
                        /\ "M" \in DOMAIN a => (IsPs(h, a.M) \/ IsPm(h, a.M)) /\ Real(h[a.M]) /\ h[a.M].n = a.n /\ RSof(h[a.M]) = RSof(h[a.A])
                                                /\ CSof(h[a.M]) = RSof(h[a.A])
(* a * U / b without leaving 32 bits *)
RECURSIVE Decimals(_, _, _, _)
Decimals(q, rem, b, k) == IF k = 0 THEN q ELSE Decimals(10 * q + (10 * rem) \div b, (10 * rem) % b, b, k - 1)
Frac4(a, b) == LET s == IF (a < 0) = (b < 0) THEN 1 ELSE -1 IN s * Decimals(Abs(a) \div Abs(b), Abs(a) % Abs(b), Abs(b), 4)
DiagOf(R) == TLCEval([i \in 1..Len(R) |-> R[i][i]])
L1All(M, opt) == TLCEval(Concat([r \in 1..M.n |-> [i \in 1..M.L[r].d.r |-> L1(M.L[r], opt, i - 1)]]))
OwnerOfRow(M, i) == CHOOSE r \in 1..M.n : i >= M.L[r].rs[1] /\ i < M.L[r].rs[2]
(* one sweep of a smoother, u in fixed point; relaxation weight 1/w and over-relaxation 1/om *)
Sweep(M, R, stype, w, om, b, u) ==
  LET n == Len(b)
      l1 == IF stype >= 1 THEN L1All(M, stype) ELSE DiagOf(R)
      Res(x, i) == b[i] * U - SumTo(n, LAMBDA j : R[i][j] * x[j])
      own == TLCEval([i \in 1..n |-> OwnerOfRow(M, i - 1)])
      \* the residual of row i when only the rank's own unknowns have moved on
      Mixed(x, i) == b[i] * U - SumTo(n, LAMBDA j : R[i][j] * (IF own[j] = own[i] THEN x[j] ELSE u[j]))
      Rank(r) == SelectSeq([i \in 1..n |-> i], LAMBDA i : own[i] = r)
      Order(r) == Rank(r) \o Reverse(Rank(r))
      Both(r) == LET q == Rank(r) IN [i \in 1..Len(q) |-> <<q[i], 0>>] \o [i \in 1..Len(q) |-> <<q[Len(q) + 1 - i], 1>>]
      \* what the unknowns before i in this pass have moved since the sweep began
      Shift(x, i, back) == SumTo(n, LAMBDA j : IF own[j] = own[i] /\ (IF back = 1 THEN j > i ELSE j < i) THEN R[i][j] * (u[j] - x[j]) ELSE 0)
      GS(x, q) == [x EXCEPT ![q[1]] = @ + ((Mixed(x, q[1]) + (w - 1) * Shift(x, q[1], q[2])) \div (om * w)) \div l1[q[1]]]
      Kz(x, i) == LET q == Mixed(x, i) \div w IN [j \in 1..n |-> IF own[j] = own[i] THEN x[j] + (q * R[i][j]) \div l1[i] ELSE x[j]]
  IN CASE stype = 2 -> FoldLeft(LAMBDA x, r : FoldLeft(LAMBDA y, q : TLCEval(GS(y, q)), x, Both(r)), u, [r \in 1..M.n |-> r])
       [] stype = 3 -> FoldLeft(LAMBDA x, r : FoldLeft(LAMBDA y, i : TLCEval(Kz(y, i)), x, Order(r)), u, [r \in 1..M.n |-> r])
       [] OTHER -> TLCEval([i \in 1..n |-> u[i] + (Res(u, i) \div w) \div l1[i]])
RECURSIVE Sweeps(_, _, _, _, _, _, _, _)
Sweeps(M, R, stype, w, om, b, u, k) == IF k = 0 THEN u ELSE Sweeps(M, R, stype, w, om, b, Sweep(M, R, stype, w, om, b, u), k - 1)

(* what the first step of preconditioned conjugate gradients from zero must give, with preconditioner 1/c (c a vector of integers): *)
(* p = b / c, x = (p.b / p.Ap) p; all p multiples of 1/prod *)
FirstStep(R, b, c, x) ==
  LET n == Len(b)
      pr == FoldLeft(LAMBDA q, i : q * c[i], 1, [i \in 1..n |-> i])
      p == TLCEval([i \in 1..n |-> (b[i] * pr) \div c[i]])
      num == SumTo(n, LAMBDA i : p[i] * b[i])
      den == SumTo(n, LAMBDA i : p[i] * SumTo(n, LAMBDA j : R[i][j] * p[j]))
  IN \A i \in 1..n : Close(x[i], IF den = 0 THEN 0 ELSE Frac4(num * p[i], den), 2)
StepFits(R, b, c) ==                                  \* the numbers above stay in range
  LET n == Len(b) IN
  /\ \A i \in 1..n : c[i] \in {1, 2, 3, 4, 5, 6, 8, 9, 10, 12} /\ Abs(b[i]) <= 12
  /\ FoldLeft(LAMBDA q, i : Min2(1000, q * c[i]), 1, [i \in 1..n |-> i]) <= 144
SolvesFx(R, b, x) == /\ Len(x) = Len(b) /\ Small(x, 2000000)
                     /\ \A i \in 1..Len(b) : Close(SumTo(Len(b), LAMBDA j : R[i][j] * x[j]), b[i] * U, SumTo(Len(b), LAMBDA j : Abs(R[i][j])) + 1)
(* a preconditioner that is symmetric and positive definite *)
DefinitePre(m) == ~(m.ty = "amg" /\ m.max = 0) /\ ~(m.ty = "smooth" /\ m.stype = 3)
RECURSIVE SolveOK(_, _, _, _, _)
SolveOK(h, s, b, x0, x) ==
  LET M == PsM(s)
      R == PmRows(M)
      n == Len(b)
      rhs0 == \A i \in 1..n : b[i] = 0
  IN /\ Len(x) = n
     /\ CASE s.ty = "plain" -> \A i \in 1..n : x[i] = 0
          [] s.ty \in {"diag", "sails"} -> \A i \in 1..n : Close(x[i], Frac4(b[i], R[i][i]), 1)
          [] s.ty = "amg" -> IF s.max = 0 THEN \A i \in 1..n : x[i] = 0 ELSE SolvesFx(R, b, x)
          [] s.ty = "smooth" ->
               LET x0U == [i \in 1..n |-> x0[i] * U]
                   fixed == \A i \in 1..n : SumTo(n, LAMBDA j : R[i][j] * x0[j]) = b[i]
                   w == IF s.weight = 2 THEN 2 ELSE 1
                   y == Sweeps(M, R, IF s.stype < 0 THEN 0 ELSE s.stype, w, s.omega, b, x0U, s.times)
               IN Small(x0, 60) /\ Small(b, 400) =>
                    /\ fixed => \A i \in 1..n : Close(x[i], x0U[i], 1)
                    /\ \A i \in 1..n : Close(x[i], y[i], 6 + 8 * s.times * n)
          [] s.ty = "cg" ->
               IF rhs0 THEN \A i \in 1..n : x[i] = 0
               ELSE IF s.ds = 0 /\ s.M # "" /\ ~DefinitePre(h[s.M]) THEN TRUE
               ELSE IF s.max = 0 THEN \A i \in 1..n : x[i] = 0
               ELSE IF s.max >= 60 /\ s.tol >= 6 THEN SolvesFx(R, b, x)
               ELSE IF s.max = 1 THEN
                    (IF s.ds = 0 /\ s.M # "" /\ h[s.M].ty = "amg" THEN (PmRows(PsM(h[s.M])) = R => SolvesFx(R, b, x))
                     ELSE LET c == CASE s.ds = 1 -> DiagOf(R)
                                     [] s.M = "" -> [i \in 1..n |-> 1]
                                     [] h[s.M].ty \in {"diag", "sails"} -> DiagOf(PmRows(PsM(h[s.M])))
                                     [] OTHER -> (CASE h[s.M].times # 1 \/ h[s.M].stype \in {2, 3} -> <<>>
                                                    [] h[s.M].stype = 1 -> L1All(PsM(h[s.M]), 1)
                                                    [] OTHER -> DiagOf(PmRows(PsM(h[s.M]))))     \* the weight cancels
                          IN c # <<>> /\ StepFits(R, b, c) => FirstStep(R, b, c, x))
               ELSE TRUE
LobOK(M, m, g, form, known) ==
  LET R == PmRows(M)
      n == Len(R)
      ev == g[1].ev
      w == Max2(1, MaxAbs2(R) * n)
      V == TLCEval([q \in 1..m |-> Concat([r \in 1..M.n |-> g[r].v[q]])])
  IN /\ \A r \in 1..M.n : g[r].ev = ev                      \* the ranks agree
     /\ Len(ev) = m /\ Small(ev, (w + 1) * U) /\ \A i \in 1..(m - 1) : ev[i] <= ev[i + 1] + 1
     /\ m = n => Close(SumSeq(ev), U * SumTo(n, LAMBDA i : R[i][i]), n + 1)
     /\ \A i \in 1..Min2(m, Len(known)) : Close(ev[i], known[i], 2)
     /\ IF form = "count" THEN TRUE
        ELSE /\ \A r \in 1..M.n : Len(g[r].v) = m
             /\ \A q \in 1..m : Len(V[q]) = n
             /\ Orthonormal(V)
             /\ \A q \in 1..m : \A i \in 1..n :
                  Close(SumTo(n, LAMBDA j : R[i][j] * V[q][j]), FxMul(ev[q], V[q][i]), w + (MaxAbs(ev) \div U) + 100)
PsEff(h, op, a, e) ==
  CASE op = "new" ->
         Do(Put(h, a.z, IF a.form = "default" THEN PsOf(a.ty, a.n, DefPm(a.n), DefPs)
              ELSE PsOf(a.ty, a.n, h[a.A],
                IF a.form = "defaults"
                  THEN [M |-> IF "M" \in DOMAIN a THEN a.M ELSE "", ds |-> 0, stype |-> 0, times |-> 1, weight |-> 1, omega |-> 1,
                        max |-> IF a.ty = "amg" THEN 1 ELSE IF a.ty = "plain" THEN 0 ELSE 1000, tol |-> 8]
                  ELSE [M |-> IF "M" \in DOMAIN a THEN a.M ELSE "", ds |-> 0, stype |-> a.stype, times |-> a.times, weight |-> a.weight, omega |-> a.omega,
                        max |-> a.max, tol |-> a.tol])))
    [] op = "diagscaling" -> Do([h EXCEPT ![a.S] = [@ EXCEPT !.ds = 1, !.M = ""]])
    [] op = "sailset" -> Do(h)
    [] op = "solve" ->
         LET s == h[a.S]
             x == Concat(e.r)
         IN [h |-> h, r |-> <<e.r>>, m |-> memo,
             ok |-> /\ Len(e.r) = s.n /\ \A r \in 1..s.n : Len(e.r[r]) = s.S[r].r
                    /\ SolveOK(h, s, PvVec(h[a.b]), PvVec(h[a.x]), x)]
    [] op = "lobpcg" ->
         LET M == h[a.A]
             key == <<"lob", PmRows(M)>>
             known == IF key \in DOMAIN memo THEN memo[key] ELSE <<>>
         IN [h |-> h, r |-> <<e.r>>, m |-> IF Len(known) >= a.ev THEN memo ELSE (key :> e.r[1].ev) @@ memo,
             ok |-> Len(e.r) = M.n /\ LobOK(M, a.ev, e.r, a.form, known)]
PsVisible(x) == [k |-> x.k, ty |-> x.ty, n |-> x.n, S |-> x.S]
PsMatch(x, o) == o.k = "ps" /\ PsVisible(x) = PsVisible(o) /\ PmSame(x, o)

(* a preconditioner stays where it is; distributed objects are assigned and swapped on the ranks they live on *)
HeldPs(h, s) == \E w \in DOMAIN h : h[w].k = "ps" /\ h[w].M = s
ParKinds == {"pm", "pv", "ps"}
ParLifePre(h, op, a) ==
  LET Two == op \in {"assign", "massign", "swap"}
      X == a.x
  IN /\ (op # "copy" => ~HeldPs(h, a.x))
     /\ (op \in {"massign", "swap"} => ~HeldPs(h, a.y))
     /\ Two /\ (h[a.x].k \in ParKinds \/ h[a.y].k \in ParKinds) /\ h[a.x].k # "moved" /\ h[a.y].k # "moved" =>
          /\ h[a.x].k = h[a.y].k /\ h[a.x].n = h[a.y].n
          /\ h[a.x].k = "ps" => h[a.x].ty = h[a.y].ty
=============================================================================
