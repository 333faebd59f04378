----------------------------- MODULE BuildArea -----------------------------
(* Entry-by-entry builders (C02).  A builder is its size (set by the user,   *)
(* or following from the entries) and the bag of everything added to it:     *)
(*   [k, t, set, r, c, e]   e: sequence of <<row, column, value>>            *)
(* Observable are its size and the sums, at every position.                  *)
EXTENDS Base

BuilderKinds == {"coo", "lil"}
IsB(h, op, s, t) == IsK(h, s, {op}) /\ h[s].t = t

BSized(b) == b.set \/ b.e # <<>>
BRows(b) == IF b.set THEN b.r ELSE 1 + FoldLeft(LAMBDA m, q : Max2(m, q[1]), 0, b.e)
BCols(b) == IF b.set THEN b.c ELSE 1 + FoldLeft(LAMBDA m, q : Max2(m, q[2]), 0, b.e)
BDense(b) ==
  LET r == BRows(b)
  IN TLCEval(FoldLeft(LAMBDA v, q : [v EXCEPT ![q[2] * r + q[1] + 1] = @ + q[3]], Zeros(r * BCols(b)), b.e))
BDn(b) == Dn(BRows(b), BCols(b), BDense(b))
BSp(b, t) ==
  LET r == BRows(b)
      v == BDense(b)
      P == {<<q[1], q[2]>> : q \in Rng(b.e)}
  IN MkSp(t, r, BCols(b), TLCEval([i \in 1..r |-> TLCEval([j \in {p[2] : p \in {p \in P : p[1] = i - 1}} |-> v[j * r + i]])]))

BMatch(b, o) ==
  /\ o.k = b.k /\ o.t = b.t
  /\ BSized(b) => o.r = BRows(b) /\ o.c = BCols(b) /\ o.v = BDense(b)

(* the entries one Add call contributes, in scaled numbers *)
Cross(rows, cols, f(_, _)) ==
  Concat([q \in 1..Len(cols) |-> [p \in 1..Len(rows) |-> <<rows[p], cols[q], f(p, q)>>]])
Contribution(h, a) ==
  LET t == a.t
      Blk(p, q) == h[a.B].v[(q - 1) * h[a.B].r + p]
      X(p) == VecOf(h, a.x)[p]
      sym == <<a.j, a.i, a.val>>
  IN CASE a.form = "one" -> <<<<a.i, a.j, a.val>>>>
       [] a.form = "sym" -> IF a.i = a.j THEN <<<<a.i, a.j, a.val>>>> ELSE <<<<a.i, a.j, a.val>>, sym>>
       [] a.form = "blk1" -> Cross(a.rows, a.rows, LAMBDA p, q : Fit(t, Blk(p, q) * F))
       [] a.form = "blk2" -> Cross(a.rows, a.cols, LAMBDA p, q : Fit(t, Blk(p, q) * F))
       [] a.form = "sblk1" -> Cross(a.rows, a.rows, LAMBDA p, q : Fit(t, Blk(p, q) * a.s))
       [] a.form = "sblk2" -> Cross(a.rows, a.cols, LAMBDA p, q : Fit(t, Blk(p, q) * a.s))
       [] a.form = "colv" -> [p \in 1..Len(a.rows) |-> <<a.rows[p], a.j, X(p)>>]
       [] a.form = "rowv" -> [p \in 1..Len(a.cols) |-> <<a.i, a.cols[p], X(p)>>]
       [] a.form = "scolv" -> [p \in 1..Len(a.rows) |-> <<a.rows[p], a.j, Fit(t, a.s * X(p))>>]
       [] a.form = "srowv" -> [p \in 1..Len(a.cols) |-> <<a.i, a.cols[p], Fit(t, a.s * X(p))>>]
       [] a.form = "list" -> [p \in 1..Len(a.rows) |-> <<a.rows[p], a.cols[p], a.v[p]>>]
       [] a.form = "slist" -> [p \in 1..Len(a.rows) |-> <<a.rows[p], a.cols[p], Fit(t, a.s * a.v[p])>>]
       [] a.form = "listv" -> [p \in 1..Len(a.rows) |-> <<a.rows[p], a.cols[p], X(p)>>]
       [] a.form = "slistv" -> [p \in 1..Len(a.rows) |-> <<a.rows[p], a.cols[p], Fit(t, a.s * X(p))>>]

AddShape(h, a) ==                              \* operand sizes conform
  CASE a.form \in {"one", "sym"} -> TRUE
    [] a.form \in {"blk1", "sblk1"} -> IsK(h, a.B, {"dn"}) /\ Len(a.rows) = h[a.B].r /\ Len(a.rows) = h[a.B].c
    [] a.form \in {"blk2", "sblk2"} -> IsK(h, a.B, {"dn"}) /\ Len(a.rows) = h[a.B].r /\ Len(a.cols) = h[a.B].c
    [] a.form \in {"colv", "scolv"} -> IsVecT(h, a.x, a.t) /\ Len(a.rows) = LenOf(h, a.x)
    [] a.form \in {"rowv", "srowv"} -> IsVecT(h, a.x, a.t) /\ Len(a.cols) = LenOf(h, a.x)
    [] a.form \in {"list", "slist"} -> Len(a.rows) = Len(a.v) /\ Len(a.cols) = Len(a.v)
    [] a.form \in {"listv", "slistv"} -> IsVecT(h, a.x, a.t) /\ Len(a.rows) = LenOf(h, a.x) /\ Len(a.cols) = LenOf(h, a.x)

BuildPre(h, m, op, a) ==
  CASE op = "new" -> a.form = "auto" \/ (a.r >= 0 /\ (a.form = "sq" \/ a.c >= 0))
    [] op = "acc" -> IsB(h, m, a.A, a.t) /\ BSized(h[a.A])
    [] op = "setsize" -> /\ IsB(h, m, a.A, a.t) /\ a.r >= 0 /\ a.c >= 0
                         /\ \A q \in Rng(h[a.A].e) : q[1] < a.r /\ q[2] < a.c
    [] op = "reserve" -> IsB(h, m, a.A, a.t) /\ a.n >= 0
    [] op = "add" -> /\ IsB(h, m, a.A, a.t) /\ AddShape(h, a)
                     /\ \A q \in Rng(Contribution(h, a)) :
                          /\ q[1] >= 0 /\ q[2] >= 0
                          /\ h[a.A].set => q[1] < h[a.A].r /\ q[2] < h[a.A].c
    [] op = "tosparse" -> IsB(h, m, a.A, a.t) /\ BSized(h[a.A])
    [] op = "todense" -> IsB(h, m, a.A, a.t) /\ BSized(h[a.A]) /\ (a.form = "out" => IsK(h, a.z, {"dn"}) /\ ~Pinned(h, a.z))
    [] op = "perm" -> /\ IsB(h, m, a.A, a.t) /\ BSized(h[a.A])
                      /\ a.form # "cols" => Len(a.rows) = BRows(h[a.A]) /\ InRange(a.rows, Len(a.rows)) /\ Distinct(a.rows)
                      /\ a.form # "rows" => Len(a.cols) = BCols(h[a.A]) /\ InRange(a.cols, Len(a.cols)) /\ Distinct(a.cols)
    [] op = "elimzeros" ->                     \* removal does not decide the size of an auto-sized builder
         LET b == h[a.A]
             tol == IF "tol" \in DOMAIN a THEN a.tol ELSE 0
             n == [b EXCEPT !.e = SelectSeq(@, LAMBDA q : Abs(q[3]) > tol)]
         IN IsB(h, m, a.A, a.t) /\ BSized(b) /\ BSized(n) /\ BRows(n) = BRows(b) /\ BCols(n) = BCols(b)

BuildEff(h, m, op, a, e) ==
  CASE op = "new" -> Do(Put(h, a.z, [k |-> m, t |-> a.t, set |-> a.form # "auto", r |-> IF a.form = "auto" THEN 0 ELSE a.r,
                                     c |-> IF a.form = "auto" THEN 0 ELSE IF a.form = "sq" THEN a.r ELSE a.c, e |-> <<>>]))
    [] op = "acc" -> Ret(h, IF a.form = "rows" THEN BRows(h[a.A]) ELSE BCols(h[a.A]))
    [] op = "setsize" -> Do([h EXCEPT ![a.A] = [@ EXCEPT !.set = TRUE, !.r = a.r, !.c = a.c]])
    [] op = "reserve" -> Do(h)
    [] op = "add" -> Do([h EXCEPT ![a.A] = [@ EXCEPT !.e = @ \o Contribution(h, a)]])
    [] op = "tosparse" -> Do(Put(h, a.z, BSp(h[a.A], IF a.u = "" THEN a.t ELSE a.u)))
    [] op = "todense" -> Do(Put(h, a.z, BDn(h[a.A])))
    [] op = "perm" -> Do([h EXCEPT ![a.A] = [@ EXCEPT !.e = [q \in 1..Len(@) |->
                         <<IF a.form = "cols" THEN @[q][1] ELSE a.rows[@[q][1] + 1],
                           IF a.form = "rows" THEN @[q][2] ELSE a.cols[@[q][2] + 1], @[q][3]>>]]])
    [] op = "elimzeros" ->
         LET tol == IF "tol" \in DOMAIN a THEN a.tol ELSE 0
         IN Do([h EXCEPT ![a.A] = [@ EXCEPT !.e = SelectSeq(@, LAMBDA q : Abs(q[3]) > tol)]])
=============================================================================
