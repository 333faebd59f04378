-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* The abstract state of a program that uses linalgcpp, and the arithmetic *)
(* shared by all areas of the library.                                     *)
(*                                                                         *)
(*   heap   slot name -> object; an object is a record whose field k is    *)
(*          its kind ("vec", "view", "arr", "sp", "dn", "coo", ...)        *)
(*   scale  the fixed-point scale F of the current episode: a number v is  *)
(*          represented by the integer v*F, in every object                *)
(*   memo   results the library may choose freely but must repeat when the *)
(*          same call is made again (seeded random numbers, partitions...) *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

VARIABLES heap, scale, memo

(* A number that is not a multiple of 1/F.  The interpreter logs it for any *)
(* double it cannot represent; an episode ends when one has been logged.    *)
FRAC == 2000000004

F == scale
One == scale

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
SumTo(n, f(_)) == FoldLeft(LAMBDA x, y : x + f(y), 0, [i \in 1..n |-> i])

SumOver(S, f(_)) == FoldSet(LAMBDA x, y : f(x) + y, 0, S)

(* Concatenation of a sequence of sequences *)
Concat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)

(* s is a value at scale F*F *)
Descale(s) == IF F = 1 THEN s ELSE IF s % F = 0 THEN s \div F ELSE FRAC
TruncI(s) == LET q == Abs(s) \div (F * F) IN IF s < 0 THEN -(q * F) ELSE q * F
Fit(t, s) == IF t = "i" THEN TruncI(s) ELSE Descale(s)

Mul(x, y) == Descale(x * y)
DivD(x, y) ==                       \* double division, exact or FRAC
  LET n == (IF y < 0 THEN -x ELSE x) * F
      m == Abs(y)
  IN IF n % m = 0 THEN n \div m ELSE FRAC
DivI(x, y) ==                       \* C++ integer division
  LET q == Abs(x) \div Abs(y) IN (IF (x < 0) = (y < 0) THEN q ELSE -q) * F
DivT(t, x, y) == IF t = "i" THEN DivI(x, y) ELSE DivD(x, y)

RECURSIVE ISqrtR(_, _, _)
ISqrtR(lo, hi, s) ==                \* largest r in lo..hi with r*r <= s
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF m * m <= s THEN ISqrtR(m, hi, s) ELSE ISqrtR(lo, m - 1, s)
ISqrt(s) == ISqrtR(0, 46340, s)
ExactSqrt(s) == LET r == ISqrt(s) IN IF r * r = s THEN r ELSE FRAC

Zeros(n) == [i \in 1..n |-> 0]
Const(n, v) == [i \in 1..n |-> v]
Rng(s) == {s[i] : i \in 1..Len(s)}
InRange(idx, n) == \A i \in 1..Len(idx) : idx[i] >= 0 /\ idx[i] < n
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

-----------------------------------------------------------------------------
(* Heap access *)

Put(h, z, o) == (z :> o) @@ h
Drop(h, z) == [s \in DOMAIN h \ {z} |-> h[s]]
Has(h, s) == s \in DOMAIN h
Kind(h, s) == h[s].k
IsK(h, s, K) == s \in DOMAIN h /\ h[s].k \in K

(* Objects that are, or contain, a flat sequence of numbers *)
VecKinds == {"vec", "view", "bvec"}
IsVec(h, s) == IsK(h, s, VecKinds)
IsVecT(h, s, t) == IsVec(h, s) /\ h[s].t = t

(* A view is a section of a field of its owner: contents are derived. *)
VecOf(h, s) ==
  IF h[s].k = "view"
    THEN IF h[s].n = 0 THEN <<>>
         ELSE SubSeq(h[h[s].o][h[s].f], h[s].off + 1, h[s].off + h[s].n)
    ELSE h[s].v
LenOf(h, s) == IF h[s].k = "view" THEN h[s].n ELSE Len(h[s].v)

(* Writing through a view is writing its owner. *)
SetVec(h, s, v) ==
  IF h[s].k = "view"
    THEN IF h[s].n = 0 THEN h
         ELSE LET o == h[s].o
                  f == h[s].f
              IN [h EXCEPT ![o] = [@ EXCEPT ![f] =
                    [i \in 1..Len(@) |-> IF i > h[s].off /\ i <= h[s].off + h[s].n
                                           THEN v[i - h[s].off] ELSE @[i]]]]
    ELSE [h EXCEPT ![s] = [@ EXCEPT !.v = v]]

(* Views refer to storage that some operations release. *)
Pinned(h, s) == \E w \in DOMAIN h : h[w].k = "view" /\ h[w].n > 0 /\ h[w].o = s

Vec(t, v) == [k |-> "vec", t |-> t, v |-> v]
Arr(t, v) == [k |-> "arr", t |-> t, v |-> v]
Dn(r, c, v) == [k |-> "dn", r |-> r, c |-> c, v |-> v]
Moved == [k |-> "moved"]

(* Effects: new heap, result (<<>> or <<value>>), and memo *)
Do(h) == [h |-> h, r |-> <<>>, m |-> memo, ok |-> TRUE]
Ret(h, v) == [h |-> h, r |-> <<v>>, m |-> memo, ok |-> TRUE]
RetObs(h, e) == [h |-> h, r |-> IF "r" \in DOMAIN e THEN <<e.r>> ELSE <<>>, m |-> memo, ok |-> TRUE]

-----------------------------------------------------------------------------
(* Sparse matrices: compressed rows, 0-based as in the code.               *)
(*   p  row pointer (rows + 1), j column indices, x values                 *)

SpOK(m) ==                                 \* structural validity (C03)
  /\ m.r >= 0 /\ m.c >= 0
  /\ Len(m.p) = m.r + 1
  /\ m.p[1] = 0
  /\ \A i \in 1..m.r : m.p[i] <= m.p[i + 1]
  /\ m.p[m.r + 1] = Len(m.j)
  /\ Len(m.x) = Len(m.j)
  /\ \A k \in 1..Len(m.j) : m.j[k] >= 0 /\ m.j[k] < m.c
  /\ \A i \in 1..m.r : \A k, l \in (m.p[i] + 1)..m.p[i + 1] : k # l => m.j[k] # m.j[l]

RowIdx(m, i) == (m.p[i + 1] + 1)..m.p[i + 2]           \* i: 0-based row
RowCols(m, i) == {m.j[k] : k \in RowIdx(m, i)}
(* the row as a function from stored columns to values *)
RowFcn(m, i) ==
  LET R == RowIdx(m, i)
  IN TLCEval([c \in {m.j[k] : k \in R} |-> m.x[CHOOSE k \in R : m.j[k] = c]])
Rows(m) == TLCEval([i \in 1..m.r |-> RowFcn(m, i - 1)])
Nnz(m) == Len(m.j)

(* From row functions (columns 0-based) to canonical compressed rows *)
SortedCols(f) == SetToSortSeq(DOMAIN f, LAMBDA x, y : x < y)
MkSp(t, r, c, rows) ==
  LET cols == TLCEval([i \in 1..r |-> SortedCols(rows[i])])
      p == TLCEval(FoldLeft(LAMBDA q, k : Append(q, q[Len(q)] + Len(k)), <<0>>, cols))
  IN [k |-> "sp", t |-> t, r |-> r, c |-> c, p |-> p,
      j |-> TLCEval(Concat(cols)),
      x |-> TLCEval(Concat([i \in 1..r |-> [q \in 1..Len(cols[i]) |-> rows[i][cols[i][q]]]]))]

(* Same matrix up to the order of entries within rows; `o` is the observed one *)
SameSp(m, o) ==
  /\ m.t = o.t /\ m.r = o.r /\ m.c = o.c
  /\ Len(o.p) = Len(m.p)
  /\ SpOK(o)
  /\ \A i \in 0..(m.r - 1) : RowFcn(m, i) = RowFcn(o, i)

(* entry (i,j), 0-based; 0 where nothing is stored *)
At(m, i, c) ==
  LET R == {k \in RowIdx(m, i) : m.j[k] = c}
  IN IF R = {} THEN 0 ELSE m.x[CHOOSE k \in R : TRUE]

DAt(m, i, c) == m.v[c * m.r + i + 1]                   \* dense, 0-based
MkDn(r, c, f(_, _)) == Dn(r, c, TLCEval([q \in 1..(r * c) |-> f((q - 1) % r, (q - 1) \div r)]))

(* Mathematical contents of anything with Rows and Cols: sequence of rows *)
RowsOfSp(m) == TLCEval([i \in 1..m.r |-> LET f == RowFcn(m, i - 1) IN
                  TLCEval([c \in 1..m.c |-> IF (c - 1) \in DOMAIN f THEN f[c - 1] ELSE 0])])
RowsOfDn(m) == TLCEval([i \in 1..m.r |-> TLCEval([c \in 1..m.c |-> m.v[(c - 1) * m.r + i]])])
DnOfRows(r, c, R) == Dn(r, c, TLCEval([q \in 1..(r * c) |-> R[((q - 1) % r) + 1][((q - 1) \div r) + 1]]))
ZeroRows(r, c) == [i \in 1..r |-> Zeros(c)]
MulRows(A, B, n, m, l) ==                              \* (n x m)(m x l)
  TLCEval([i \in 1..n |-> TLCEval([c \in 1..l |-> Descale(SumTo(m, LAMBDA q : A[i][q] * B[q][c]))])])
TransRows(A, n, m) == TLCEval([c \in 1..m |-> TLCEval([i \in 1..n |-> A[i][c]])])
MulVec(A, n, m, x) == TLCEval([i \in 1..n |-> Descale(SumTo(m, LAMBDA q : A[i][q] * x[q]))])
MulVecT(A, n, m, x) == TLCEval([c \in 1..m |-> Descale(SumTo(n, LAMBDA q : A[q][c] * x[q]))])

=============================================================================
