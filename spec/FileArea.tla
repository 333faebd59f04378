----------------------------- MODULE FileArea -----------------------------
(* Files (C15, C16).  A file is its format and its decoded content c:        *)
(*   text, binv       <<values>>                                            *)
(*   coo              <<i, j, value>> per line     adj, graph  <<i, j>>      *)
(*   table            the column numbers of one row per line                 *)
(*   csr, binm        <<rows>>, <<cols>>, row pointer, indices, values       *)
(*   mtx, mtxl        <<rows, cols, nnz>>, then 1-based lines; sym: banner   *)
(* bad = 1: the file ends too early.                                         *)
EXTENDS BlockArea

VecFmt == {"text", "binv"}
SpFmt == {"coo", "adj", "graph", "table", "csr", "binm", "mtx", "mtxl"}
FileRec(fmt, t, sym, bad, c) == [k |-> "file", fmt |-> fmt, t |-> t, sym |-> sym, bad |-> bad, c |-> c]

Coo(t, set, r, c, e) == [k |-> "coo", t |-> t, set |-> set, r |-> r, c |-> c, e |-> e]
Mirror(e) == Concat([i \in 1..Len(e) |-> IF e[i][1] = e[i][2] THEN <<e[i]>> ELSE <<e[i], <<e[i][2], e[i][1], e[i][3]>>>>])
Mirrored(e, sym) == IF sym = 1 THEN Mirror(e) ELSE e

(* the matrix a file denotes *)
EdgeLap(c) ==
  Concat([i \in 1..Len(c) |->
     LET u == c[i][1]
         w == c[i][2]
     IN IF u < w THEN <<<<w, u, -One>>, <<u, w, -One>>, <<u, u, One>>, <<w, w, One>>>> ELSE <<>>])
TableCols(c) == FoldLeft(LAMBDA m, row : FoldLeft(LAMBDA n, q : Max2(n, q + 1), m, row), 0, c)
FileSp(f, t, rsym) ==
  LET c == f.c IN
  CASE f.fmt = "coo" -> BSp(Coo(t, FALSE, 0, 0, Mirrored(c, rsym)), t)
    [] f.fmt = "adj" -> BSp(Coo(t, FALSE, 0, 0, Mirrored([i \in 1..Len(c) |-> <<c[i][1], c[i][2], One>>], rsym)), t)
    [] f.fmt = "graph" -> BSp(Coo(t, FALSE, 0, 0, EdgeLap(c)), t)
    [] f.fmt = "table" -> MkSp(t, Len(c), TableCols(c), TLCEval([i \in 1..Len(c) |-> [q \in Rng(c[i]) |-> One]]))
    [] f.fmt \in {"csr", "binm"} -> [k |-> "sp", t |-> t, r |-> c[1][1], c |-> c[2][1], p |-> c[3], j |-> c[4], x |-> c[5]]
    [] f.fmt = "mtx" -> BSp(Coo(t, TRUE, c[1][1], c[1][2], Mirrored([i \in 1..(Len(c) - 1) |-> <<c[i + 1][1] - 1, c[i + 1][2] - 1, c[i + 1][3]>>], f.sym)), t)
    [] f.fmt = "mtxl" -> BSp(Coo(t, TRUE, c[1][1], c[1][2], Mirrored([i \in 1..(Len(c) - 1) |-> <<c[i + 1][1] - 1, c[i + 1][2] - 1, One>>], f.sym)), t)

(* which files are well formed for a reader *)
Readable(f, fmt, t, rsym) ==
  /\ f.fmt = fmt
  /\ CASE fmt \in {"binv", "binm"} -> f.t = t
       [] t = "i" -> f.t = "i"
       [] OTHER -> TRUE
  /\ fmt \in {"coo", "adj"} => f.c # <<>>
  /\ fmt = "graph" => EdgeLap(f.c) # <<>>
  /\ fmt = "table" => \A i \in 1..Len(f.c) : Distinct(f.c[i])

(* what writing a matrix leaves on disk; upper: only entries on or above the diagonal *)
Entries(m) == Concat([i \in 1..m.r |-> [q \in 1..(m.p[i + 1] - m.p[i]) |-> <<i - 1, m.j[m.p[i] + q], m.x[m.p[i] + q]>>]])
Kept(m, sym) == SelectSeq(Entries(m), LAMBDA e : sym = 0 \/ e[2] >= e[1])
FileOf(m, fmt, sym) ==
  LET e == Kept(m, sym) IN
  CASE fmt = "coo" -> e
    [] fmt = "adj" -> [i \in 1..Len(e) |-> <<e[i][1], e[i][2]>>]
    [] fmt = "table" -> [i \in 1..m.r |-> SubSeq(m.j, m.p[i] + 1, m.p[i + 1])]
    [] fmt \in {"csr", "binm"} -> <<<<m.r>>, <<m.c>>, m.p, m.j, m.x>>
    [] fmt = "mtx" -> <<<<m.r, m.c, Len(m.j)>>>> \o [i \in 1..Len(e) |-> <<e[i][1] + 1, e[i][2] + 1, e[i][3]>>]

SameBag(s, u) == Len(s) = Len(u) /\ \A x \in Rng(s) : Cardinality({i \in 1..Len(s) : s[i] = x}) = Cardinality({i \in 1..Len(u) : u[i] = x})
FileMatch(x, o) ==
  /\ o.k = "file" /\ o.fmt = x.fmt /\ o.t = x.t /\ o.bad = x.bad
  /\ (x.bad = 0 =>
       CASE x.fmt \in {"coo", "adj", "graph"} -> SameBag(x.c, o.c)
         [] x.fmt \in {"mtx", "mtxl"} -> o.sym = x.sym /\ Len(o.c) >= 1 /\ o.c[1] = x.c[1] /\ SameBag(Tail(x.c), Tail(o.c))
         [] x.fmt = "table" -> Len(o.c) = Len(x.c) /\ \A i \in 1..Len(x.c) : SameBag(x.c[i], o.c[i])
         [] OTHER -> o.c = x.c)

FileOps == {"put", "trunc", "read", "readmissing", "write", "writebad"}
WriteSrc(h, a) ==
  CASE a.fmt = "text" -> (IsVecT(h, a.x, a.t) \/ (IsK(h, a.x, {"arr"}) /\ h[a.x].t = a.t))
    [] a.fmt = "binv" -> (IsK(h, a.x, {"vec", "arr"}) /\ h[a.x].t = a.t)
    [] OTHER -> IsK(h, a.x, {"sp"}) /\ h[a.x].t = a.t
FilePre(h, op, a) ==
  CASE op = "put" -> TRUE
    [] op = "trunc" -> IsK(h, a.x, {"file"}) /\ h[a.x].fmt \in {"binv", "binm", "csr"}
    [] op = "read" -> IsK(h, a.x, {"file"}) /\ (h[a.x].bad = 1 \/ Readable(h[a.x], a.fmt, a.t, a.sym)) /\ h[a.x].fmt = a.fmt
    [] op = "readmissing" -> TRUE
    [] op = "write" -> WriteSrc(h, a) /\ (a.z \in DOMAIN h => h[a.z].k = "file")
    [] op = "writebad" -> WriteSrc(h, a)

FileEff(h, op, a, e) ==
  CASE op = "put" -> Do(Put(h, a.z, FileRec(a.fmt, a.t, a.sym, 0, a.c)))
    [] op = "trunc" -> Do([h EXCEPT ![a.x] = FileRec(@.fmt, @.t, @.sym, 1, <<>>)])
    [] op = "read" ->
         IF h[a.x].bad = 1 THEN Ret(h, 0)                     \* refused; nothing is produced
         ELSE Ret(Put(h, a.z, IF a.fmt \in VecFmt THEN Arr(a.t, h[a.x].c[1]) ELSE FileSp(h[a.x], a.t, a.sym)), 1)
    [] op = "readmissing" -> Ret(h, 0)
    [] op = "write" ->
         LET c == IF a.fmt \in VecFmt THEN <<IF h[a.x].k = "arr" THEN h[a.x].v ELSE VecOf(h, a.x)>> ELSE FileOf(h[a.x], a.fmt, a.sym)
         IN Do(Put(h, a.z, FileRec(a.fmt, a.t, IF a.fmt = "mtx" THEN 0 ELSE a.sym, 0, c)))
    [] op = "writebad" -> Ret(h, 0)

-----------------------------------------------------------------------------
(* Round trips of values as bit patterns (opaque strings)                    *)
MaxIdx(s) == FoldLeft(Max2, -1, s)
XPre(h, op, a) ==
  CASE op = "vec" -> TRUE
    [] op = "mat" -> SpOK([r |-> a.r, c |-> a.c, p |-> a.p, j |-> a.j, x |-> a.x])
    [] op = "trip" -> IF a.fmt \in VecFmt THEN IsK(h, a.x, {"xv"}) /\ h[a.x].t = a.t
                      ELSE IsK(h, a.x, {"xm"}) /\ h[a.x].t = a.t /\ (a.fmt = "coo" => h[a.x].j # <<>>)
                           /\ (a.sym = 1 => a.fmt = "coo" /\ h[a.x].r = h[a.x].c
                                /\ \A i \in 0..(h[a.x].r - 1) : \A j \in DOMAIN RowFcn(h[a.x], i) :
                                      i \in DOMAIN RowFcn(h[a.x], j) /\ RowFcn(h[a.x], j)[i] = RowFcn(h[a.x], i)[j])
LastRow(m) == CHOOSE i \in 1..m.r : m.p[i + 1] = Len(m.j) /\ m.p[i] < Len(m.j)
XEff(h, op, a, e) ==
  CASE op = "vec" -> Do(Put(h, a.z, [k |-> "xv", t |-> a.t, v |-> a.v]))
    [] op = "mat" -> Do(Put(h, a.z, [k |-> "xm", t |-> a.t, r |-> a.r, c |-> a.c, p |-> a.p, j |-> a.j, x |-> a.x]))
    [] op = "trip" ->
         LET m == h[a.x] IN
         IF a.fmt = "coo"
           THEN LET r == LastRow(m)
                IN Do(Put(h, a.z, [m EXCEPT !.r = r, !.p = SubSeq(@, 1, r + 1), !.c = MaxIdx(m.j) + 1]))
           ELSE Do(Put(h, a.z, m))
XmMatch(x, o) == o.k = "xm" /\ SameSp(x, o)
=============================================================================
