----------------------------- MODULE PrintArea -----------------------------
(* Printed text (C21), as its parts: label, entries with their positions,   *)
(* anything else ("junk"), and whether the stream's settings are as before. *)
EXTENDS MiscArea

IsT(h, s, K, t) == IsK(h, s, K) /\ h[s].t = t
PrintPre(h, op, a) ==
  CASE op = "vec" -> IsVecT(h, a.x, a.t)
    [] op = "stream" -> IsVecT(h, a.x, a.t) \/ IsT(h, a.x, {"arr"}, a.t)
    [] op = "list" -> IsT(h, a.x, {"sp", "coo", "lil"}, a.t)
    [] op = "blocks" -> IsT(h, a.x, {"bm"}, a.t)
    [] op = "dense" -> IsK(h, a.x, {"dn"}) \/ (IsK(h, a.x, {"sp", "bm"}) /\ h[a.x].t = a.t)

(* v as printed with the stream's precision: exact when it has few enough digits *)
Exact(a, v) == a.prec >= 12 \/ Abs(v) < (IF F = 1 THEN 1000000 ELSE IF F <= 4 THEN 1000 * F ELSE 100 * F)
Same(a, v, w) == IF Exact(a, v) THEN w = v ELSE w # 0
BagS(s) == LET S == Rng(s) IN TLCEval([x \in S |-> CountIn(s, x)])
SameEntries(a, s, t) ==              \* positions only, when some value is cut off by the stream's precision
  /\ Len(s) = Len(t)
  /\ LET full == \A i \in 1..Len(s) : Exact(a, s[i][3])
         V(q) == TLCEval([i \in 1..Len(q) |-> IF full THEN q[i] ELSE <<q[i][1], q[i][2]>>])
     IN BagS(V(s)) = BagS(V(t))
SpEntries(m) == TLCEval(Concat([i \in 1..m.r |-> LET f == RowFcn(m, i - 1) IN LET c == SortedCols(f) IN [q \in 1..Len(c) |-> <<i - 1, c[q], f[c[q]]>>]]))
(* characters of a number with p digits after the point, scaled by F *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
\* (a zero may be negative)
Chars(v, p) == (IF v <= 0 THEN 1 ELSE 0) + Digits(Abs(v) \div F) + (IF p > 0 THEN p + 1 ELSE 0)

(* what a faithful printer shows *)
Rendered(h, op, a) ==
  LET x == h[a.x]
      base == [label |-> IF op = "stream" THEN "" ELSE a.label, junk |-> 0, fmt |-> 1]
  IN base @@ (CASE op \in {"vec", "stream"} -> [v |-> VecOf(h, a.x)]
                [] op = "list" -> [e |-> IF x.k = "sp" THEN SpEntries(x) ELSE x.e]
                [] op = "blocks" -> [b |-> [q \in 1..Len(x.b) |-> <<(q - 1) \div NB(x.co), (q - 1) % NB(x.co), SpEntries(x.b[q])>>]]
                [] op = "dense" -> [v |-> OpRows(h, a.x)])

PrintEff(h, op, a, e) ==
  LET g == e.r
      label == IF op = "stream" THEN "" ELSE a.label
      Out(ok) == [h |-> h, r |-> <<g>>, m |-> memo, ok |-> g.label = label /\ g.junk = 0 /\ g.fmt = 1 /\ ok]
      DenseOK(R, n, w, p) ==
        IF \A i \in 1..n : \A j \in 1..Len(R[i]) : Chars(R[i][j], p) <= w
          THEN Len(g.v) = n /\ \A i \in 1..n : g.v[i] = R[i]
          ELSE Len(g.v) = n
  IN CASE op \in {"vec", "stream"} ->
            LET v == VecOf(h, a.x) IN Out(Len(g.v) = Len(v) /\ \A i \in 1..Len(v) : Same(a, v[i], g.v[i]))
       [] op = "list" -> Out(SameEntries(a, IF h[a.x].k = "sp" THEN SpEntries(h[a.x]) ELSE h[a.x].e, g.e))
       [] op = "blocks" ->
            LET m == h[a.x]
                n == NB(m.co)
            IN Out(/\ Len(g.b) = Len(m.b)
                   /\ \A q \in 1..Len(m.b) : \E s \in 1..Len(g.b) :
                        /\ g.b[s][1] = (q - 1) \div n /\ g.b[s][2] = (q - 1) % n
                        /\ SameEntries(a, SpEntries(m.b[q]), g.b[s][3]))
       [] op = "dense" ->
            LET m == h[a.x]
                R == OpRows(h, a.x)
            IN Out(DenseOK(R, Len(R), IF "w" \in DOMAIN a THEN a.w ELSE 8, IF "p" \in DOMAIN a THEN a.p ELSE 4))
=============================================================================
