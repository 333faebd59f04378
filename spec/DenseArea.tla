----------------------------- MODULE DenseArea -----------------------------
(* Dense matrices, column-major (C06).                                      *)
EXTENDS Base

IsD(h, s) == IsK(h, s, {"dn"})
DGet(m, i, j) == m.v[j * m.r + i + 1]                     \* 0-based
DMap(m, f(_, _, _)) == [m EXCEPT !.v = TLCEval([q \in 1..Len(@) |-> f((q - 1) % m.r, (q - 1) \div m.r, @[q])])]
DTrans(m) == MkDn(m.c, m.r, LAMBDA i, j : DGet(m, j, i))
DMul(A, B, n, q, l, fa(_, _), fb(_, _)) == MkDn(n, l, LAMBDA i, j : Descale(SumTo(q, LAMBDA p : fa(i, p - 1) * fb(p - 1, j))))
OutForms == {"ab-out", "atb-out", "abt-out", "atbt-out", "rows-out", "rowlist-out", "cols-out", "range-out", "list-out", "plain-out"}
BaseForm(f) ==
  CASE f \in {"ab", "ab-out"} -> "ab"
    [] f \in {"atb", "atb-out"} -> "atb"
    [] f \in {"abt", "abt-out"} -> "abt"
    [] f \in {"atbt", "atbt-out"} -> "atbt"
    [] f \in {"rows", "rows-out"} -> "rows"
    [] f \in {"rowlist", "rowlist-out"} -> "rowlist"
    [] f \in {"cols", "cols-out"} -> "cols"
    [] f \in {"range", "range-out"} -> "range"
    [] f \in {"list", "list-out"} -> "list"
    [] OTHER -> "plain"

(* an output argument may hold anything, but nothing may refer to its storage *)
OutOK(h, a, in) == a.form \in OutForms => IsD(h, a.z) /\ ~Pinned(h, a.z) /\ a.z \notin in

RangeOK(lo, hi, n) == 0 <= lo /\ lo <= hi /\ hi <= n

(* the rectangle [i0,i1) x [j0,j1) a block write covers *)
SetRect(h, a) ==
  LET m == h[a.A]
      b == h[a.B]
  IN CASE a.form = "rows" -> <<a.i0, a.i0 + b.r, 0, m.c>>
       [] a.form = "cols" -> <<0, m.r, a.j0, a.j0 + b.c>>
       [] a.form = "sub" -> <<a.i0, a.i0 + b.r, a.j0, a.j0 + b.c>>
       [] a.form = "subt" -> <<a.i0, a.i0 + b.c, a.j0, a.j0 + b.r>>
       [] OTHER -> <<a.i0, a.i1, a.j0, a.j1>>

DensePre(h, op, a) ==
  CASE op = "new" -> (CASE a.form = "default" -> TRUE
                        [] a.form = "size" -> a.r >= 0
                        [] a.form = "rc" -> a.r >= 0 /\ a.c >= 0
                        [] OTHER -> a.r >= 0 /\ a.c >= 0 /\ Len(a.v) = a.r * a.c)
    [] op = "acc" -> /\ IsD(h, a.A)
                     /\ a.form \in {"sum", "max", "min"} => Len(h[a.A].v) > 0
                     /\ a.form \in {"diag", "diag-out"} => h[a.A].r = h[a.A].c
                     /\ a.form \in {"at", "cat"} => a.i >= 0 /\ a.j >= 0 /\ a.i < h[a.A].r /\ a.j < h[a.A].c
    [] op = "put" -> IsD(h, a.A) /\ a.i >= 0 /\ a.j >= 0 /\ a.i < h[a.A].r /\ a.j < h[a.A].c
    [] op = "setsize" -> IsD(h, a.A) /\ ~Pinned(h, a.A) /\ a.r >= 0 /\ (a.form \in {"rc", "rcv"} => a.c >= 0)
    [] op = "colview" -> IsD(h, a.A) /\ a.j >= 0 /\ a.j < h[a.A].c
    [] op = "mulv" -> /\ IsD(h, a.A) /\ IsVecT(h, a.x, a.u)
                      /\ LenOf(h, a.x) = IF a.tr = 1 THEN h[a.A].r ELSE h[a.A].c
                      /\ a.form = "view" => IsVecT(h, a.z, a.v) /\ LenOf(h, a.z) = IF a.tr = 1 THEN h[a.A].c ELSE h[a.A].r
    [] op = "mul" -> /\ IsD(h, a.A) /\ IsD(h, a.B) /\ OutOK(h, a, {a.A, a.B})
                     /\ LET f == BaseForm(a.form)
                        IN (IF f \in {"ab", "abt"} THEN h[a.A].c ELSE h[a.A].r) = (IF f \in {"ab", "atb"} THEN h[a.B].r ELSE h[a.B].c)
    [] op = "transpose" -> IsD(h, a.A) /\ OutOK(h, a, {a.A})
    [] op = "iarith" -> IsD(h, a.A) /\ IsD(h, a.B) /\ h[a.A].r = h[a.B].r /\ h[a.A].c = h[a.B].c
    [] op = "sca" -> IsD(h, a.A) /\ (a.form = "div" => a.val # 0)
    [] op = "expr" -> /\ IsD(h, a.A)
                      /\ a.form \in {"add", "sub"} => IsD(h, a.B) /\ h[a.A].r = h[a.B].r /\ h[a.A].c = h[a.B].c
                      /\ a.form = "xd" => a.val # 0
    [] op = "eq" -> IsD(h, a.A) /\ IsD(h, a.B)
    [] op = "eqpert" -> IsD(h, a.A) /\ a.i >= 0 /\ a.j >= 0 /\ a.i < h[a.A].r /\ a.j < h[a.A].c /\ (a.e <= -13 \/ a.e >= -11)
    [] op = "scale" -> /\ IsD(h, a.A) /\ Len(a.x) = IF a.form \in {"rows", "irows"} THEN h[a.A].r ELSE h[a.A].c
                       /\ a.form \in {"irows", "icols"} => \A i \in 1..Len(a.x) : a.x[i] # 0
    [] op \in {"getrow", "getcol"} ->
         LET m == h[a.A] IN
         /\ IsD(h, a.A) /\ a.i >= 0 /\ a.i < (IF op = "getrow" THEN m.r ELSE m.c)
         /\ a.form # "ret" => IsVecT(h, a.z, a.t) /\ LenOf(h, a.z) = IF op = "getrow" THEN m.c ELSE m.r
    [] op \in {"setrow", "setcol"} ->
         LET m == h[a.A] IN
         /\ IsD(h, a.A) /\ a.i >= 0 /\ a.i < (IF op = "setrow" THEN m.r ELSE m.c)
         /\ IsVecT(h, a.x, a.t) /\ LenOf(h, a.x) = IF op = "setrow" THEN m.c ELSE m.r
    [] op = "get" ->
         LET m == h[a.A]
             f == BaseForm(a.form)
         IN /\ IsD(h, a.A) /\ OutOK(h, a, {a.A})
            /\ f \in {"rows", "range"} => RangeOK(a.i0, a.i1, m.r)
            /\ f \in {"cols", "range"} => RangeOK(a.j0, a.j1, m.c)
            /\ f \in {"rowlist", "list"} => InRange(a.rows, m.r)
            /\ f = "list" => InRange(a.cols, m.c)
            /\ a.form = "rowlist-out" => h[a.z].r = Len(a.rows) /\ h[a.z].c = m.c
    [] op = "set" ->
         LET m == h[a.A]
             b == h[a.B]
         IN /\ IsD(h, a.A) /\ IsD(h, a.B) /\ a.A # a.B
            /\ IF a.form = "add" THEN Len(a.rows) = b.r /\ Len(a.cols) = b.c /\ InRange(a.rows, m.r) /\ InRange(a.cols, m.c)
               ELSE LET q == SetRect(h, a)
                        tr == a.form \in {"subt", "subt5"}
                    IN /\ RangeOK(q[1], q[2], m.r) /\ RangeOK(q[3], q[4], m.c)
                       /\ (IF tr THEN b.c ELSE b.r) = q[2] - q[1]
                       /\ (IF tr THEN b.r ELSE b.c) = q[4] - q[3]
    [] op = "hstack" -> /\ Len(a.list) > 0 /\ \A i \in 1..Len(a.list) : IsD(h, a.list[i]) /\ h[a.list[i]].r = h[a.list[1]].r
                        /\ OutOK(h, a, {})

DenseEff(h, op, a, e) ==
  CASE op = "new" -> Do(Put(h, a.z, (CASE a.form = "default" -> Dn(0, 0, <<>>)
                                       [] a.form = "size" -> Dn(a.r, a.r, Zeros(a.r * a.r))
                                       [] a.form = "rc" -> Dn(a.r, a.c, Zeros(a.r * a.c))
                                       [] OTHER -> Dn(a.r, a.c, a.v))))
    [] op = "acc" ->
         LET m == h[a.A] IN
         Ret(h, (CASE a.form = "rows" -> m.r
                   [] a.form = "cols" -> m.c
                   [] a.form = "sum" -> SumSeq(m.v)
                   [] a.form = "max" -> FoldLeft(Max2, m.v[1], m.v)
                   [] a.form = "min" -> FoldLeft(Min2, m.v[1], m.v)
                   [] a.form \in {"diag", "diag-out"} -> [i \in 1..m.r |-> DGet(m, i - 1, i - 1)]
                   [] a.form \in {"copydata", "data"} -> m.v
                   [] a.form \in {"at", "cat"} -> DGet(m, a.i, a.j)))
    [] op = "put" -> Do([h EXCEPT ![a.A] = [@ EXCEPT !.v = [@ EXCEPT ![a.j * h[a.A].r + a.i + 1] = a.val]]])
    [] op = "setsize" ->
         LET m == h[a.A]
             c == IF a.form \in {"sq", "sqv"} THEN a.r ELSE a.c
             new == IF a.form \in {"sqv", "rcv"} THEN a.val ELSE 0
             n == a.r * c
             \* SetSize(r, c): "new entries not initialized"; what they are is not specified
             v == IF a.form \in {"sq", "rc"} /\ n > Len(m.v) /\ a.A \in DOMAIN e.d /\ Len(e.d[a.A].v) = n
                    THEN [q \in 1..n |-> IF q <= Len(m.v) THEN m.v[q] ELSE e.d[a.A].v[q]]
                    ELSE [q \in 1..n |-> IF q <= Len(m.v) THEN m.v[q] ELSE new]
         IN Do(Put(h, a.A, Dn(a.r, c, v)))
    [] op = "colview" ->
         LET m == h[a.A] IN Do(Put(h, a.z, [k |-> "view", t |-> "d", o |-> a.A, f |-> "v", off |-> a.j * m.r, n |-> m.r]))
    [] op = "mulv" ->
         LET m == h[a.A]
             R == RowsOfDn(m)
             x == VecOf(h, a.x)
             y == IF a.tr = 1 THEN MulVecT(R, m.r, m.c, x) ELSE MulVec(R, m.r, m.c, x)
         IN Do(IF a.form = "view" THEN SetVec(h, a.z, y) ELSE Put(h, a.z, Vec("d", y)))
    [] op = "mul" ->
         LET A == h[a.A]
             B == h[a.B]
             f == BaseForm(a.form)
             fa(i, p) == IF f \in {"ab", "abt"} THEN DGet(A, i, p) ELSE DGet(A, p, i)
             fb(p, j) == IF f \in {"ab", "atb"} THEN DGet(B, p, j) ELSE DGet(B, j, p)
         IN Do(Put(h, a.z, DMul(A, B, IF f \in {"ab", "abt"} THEN A.r ELSE A.c,
                                      IF f \in {"ab", "abt"} THEN A.c ELSE A.r,
                                      IF f \in {"ab", "atb"} THEN B.c ELSE B.r, fa, fb)))
    [] op = "transpose" -> Do(Put(h, a.z, DTrans(h[a.A])))
    [] op = "iarith" ->
         LET b == h[a.B].v IN
         Ret([h EXCEPT ![a.A] = [@ EXCEPT !.v = [q \in 1..Len(@) |-> IF a.form = "add" THEN @[q] + b[q] ELSE @[q] - b[q]]]], TRUE)
    [] op = "sca" ->
         Ret([h EXCEPT ![a.A] = [@ EXCEPT !.v = [q \in 1..Len(@) |->
                (CASE a.form = "mul" -> Mul(@[q], a.val) [] a.form = "div" -> DivD(@[q], a.val) [] OTHER -> a.val)]]], TRUE)
    [] op = "expr" ->
         LET m == h[a.A] IN
         Do(Put(h, a.z, [m EXCEPT !.v = [q \in 1..Len(@) |->
                (CASE a.form = "add" -> @[q] + h[a.B].v[q]
                   [] a.form = "sub" -> @[q] - h[a.B].v[q]
                   [] a.form \in {"xv", "vx"} -> Mul(@[q], a.val)
                   [] OTHER -> DivD(@[q], a.val))]]))
    [] op = "eq" -> Ret(h, h[a.A] = h[a.B])
    [] op = "eqpert" -> Ret(h, a.e <= -13)                \* documented tolerance 1e-12
    [] op = "scale" ->
         Do([h EXCEPT ![a.A] = DMap(@, LAMBDA i, j, v :
               (CASE a.form = "rows" -> Mul(v, a.x[i + 1])
                  [] a.form = "cols" -> Mul(v, a.x[j + 1])
                  [] a.form = "irows" -> DivD(v, a.x[i + 1])
                  [] OTHER -> DivD(v, a.x[j + 1])))])
    [] op \in {"getrow", "getcol"} ->
         LET m == h[a.A]
             y == IF op = "getrow" THEN [q \in 1..m.c |-> Fit(a.t, DGet(m, a.i, q - 1) * F)] ELSE [q \in 1..m.r |-> Fit(a.t, DGet(m, q - 1, a.i) * F)]
         IN Do(IF a.form = "ret" THEN Put(h, a.z, Vec(a.t, y)) ELSE SetVec(h, a.z, y))
    [] op \in {"setrow", "setcol"} ->
         LET x == VecOf(h, a.x) IN
         Do([h EXCEPT ![a.A] = DMap(@, LAMBDA i, j, v : IF (IF op = "setrow" THEN i ELSE j) = a.i THEN x[(IF op = "setrow" THEN j ELSE i) + 1] ELSE v)])
    [] op = "get" ->
         LET m == h[a.A]
             f == BaseForm(a.form)
         IN Do(Put(h, a.z,
              (CASE f = "rows" -> MkDn(a.i1 - a.i0, m.c, LAMBDA i, j : DGet(m, i + a.i0, j))
                 [] f = "cols" -> MkDn(m.r, a.j1 - a.j0, LAMBDA i, j : DGet(m, i, j + a.j0))
                 [] f = "range" -> MkDn(a.i1 - a.i0, a.j1 - a.j0, LAMBDA i, j : DGet(m, i + a.i0, j + a.j0))
                 [] f = "rowlist" -> MkDn(Len(a.rows), m.c, LAMBDA i, j : DGet(m, a.rows[i + 1], j))
                 [] f = "list" -> MkDn(Len(a.rows), Len(a.cols), LAMBDA i, j : DGet(m, a.rows[i + 1], a.cols[j + 1])))))
    [] op = "set" ->
         LET b == h[a.B] IN
         IF a.form = "add"
           THEN Ret([h EXCEPT ![a.A] = DMap(@, LAMBDA i, j, v :
                   v + SumOver({q \in 1..(b.r * b.c) : a.rows[((q - 1) % b.r) + 1] = i /\ a.cols[((q - 1) \div b.r) + 1] = j}, LAMBDA q : b.v[q]))], a.cols)
           ELSE LET q == SetRect(h, a)
                    tr == a.form \in {"subt", "subt5"}
                IN Do([h EXCEPT ![a.A] = DMap(@, LAMBDA i, j, v :
                        IF i >= q[1] /\ i < q[2] /\ j >= q[3] /\ j < q[4]
                          THEN IF tr THEN DGet(b, j - q[3], i - q[1]) ELSE DGet(b, i - q[1], j - q[3])
                          ELSE v)])
    [] op = "hstack" ->
         Do(Put(h, a.z, Dn(h[a.list[1]].r, FoldLeft(LAMBDA x, s : x + h[s].c, 0, a.list), Concat([i \in 1..Len(a.list) |-> h[a.list[i]].v]))))
=============================================================================
