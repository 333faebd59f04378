------------------------------ MODULE Machine ------------------------------
(* One public API call = one transition.  Pre: the call conforms.  Eff: what *)
(* it must do: the new heap (every other object is unchanged), its result,   *)
(* and, where the code has a choice, the contract (ok) of what it observed.  *)
EXTENDS VecArea, SparseArea, DenseArea, BlockArea, NumArea, PrintArea, ParArea

Pre(h, m, op, a) ==
  CASE m = "vec" -> VecPre(h, op, a)
    [] m = "life" -> LifePre(h, op, a) /\ (op \in {"del", "move"} => ~Held(h, a.x)) /\ (op = "massign" => ~Held(h, a.y)) /\ ParLifePre(h, op, a)
    [] m = "sp" -> SparsePre(h, op, a)
    [] m = "dn" -> (IF IsFact(op) THEN FactPre(h, op, a) ELSE DensePre(h, op, a))
    [] m = "eig" -> EigPre(h, op, a)
    [] m = "it" -> ItPre(h, op, a)
    [] m = "sd" -> SdPre(h, op, a)
    [] m \in BuilderKinds -> BuildPre(h, m, op, a)
    [] m = "bv" -> BvPre(h, op, a)
    [] m = "bm" -> BmPre(h, op, a)
    [] m = "bo" -> BoPre(h, op, a)
    [] m = "op" -> OpPre(h, op, a)
    [] m = "file" -> FilePre(h, op, a)
    [] m = "x" -> XPre(h, op, a)
    [] m = "ap" -> ApPre(h, op, a)
    [] m = "tm" -> TmPre(h, op, a)
    [] m = "pt" -> PtPre(h, op, a)
    [] m = "print" -> PrintPre(h, op, a)
    [] m = "pm" -> PmPre(h, op, a)
    [] m = "pv" -> PvPre(h, op, a)
    [] m = "ps" -> PsPre(h, op, a)

(* Calls whose sizes and indices are in order but which the specification says nothing about (repeated indices, values that     *)
(* are not looked at, matrices outside a method's mathematical domain): accepted or refused, but never a stray memory access. *)
Used(h, m, a, p) == IF m = "sp" THEN Rng(h[a.A].j) ELSE {q[p] : q \in Rng(h[a.A].e)}
PermLoose(perm, n, used) == Len(perm) = n /\ \A i \in used : perm[i + 1] >= 0 /\ perm[i + 1] < n
Loose(h, m, op, a) ==
  CASE m = "sp" /\ op = "permcols" -> PermLoose(a.perm, h[a.A].c, Used(h, m, a, 2))
    [] m = "coo" /\ op = "perm" -> /\ a.form # "cols" => PermLoose(a.rows, BRows(h[a.A]), Used(h, m, a, 1))
                                  /\ a.form # "rows" => PermLoose(a.cols, BCols(h[a.A]), Used(h, m, a, 2))
    [] m = "sp" /\ op = "submat" -> InRange(a.rows, h[a.A].r) /\ InRange(a.cols, h[a.A].c) /\ (a.form = "marker" => Len(h[a.w].v) >= h[a.A].c)
    [] m = "sp" /\ op = "new" -> a.form = "csr" /\ Len(a.p) = a.r + 1 /\ LastOf(a.p) = Len(a.j) /\ Len(a.j) = Len(a.x) /\ InRange(a.j, a.c)
                                /\ a.p[1] = 0 /\ \A i \in 1..a.r : a.p[i] <= a.p[i + 1]
    [] m = "sp" /\ op = "scale" -> LET n == IF a.form \in {"rows", "irows"} THEN h[a.A].r ELSE h[a.A].c
                                  IN "D" \in DOMAIN a /\ Nnz(h[a.D]) = n
    [] m = "sp" /\ op = "elim" -> LET M == h[a.A] IN
         CASE a.form = "col" -> a.i >= 0 /\ M.c = 0
           [] a.form = "colmb" -> /\ Len(a.mask) >= M.c
                                  /\ \A i \in 1..M.r : \A q \in (M.p[i] + 1)..M.p[i + 1] :
                                       a.mask[M.j[q] + 1] # 0 /\ M.x[q] # 0 => M.j[q] < LenOf(h, a.x) /\ i <= LenOf(h, a.b)
           [] OTHER -> FALSE
    [] m = "dn" /\ op = "get" -> (BaseForm(a.form) = "list" /\ (a.rows = <<>> \/ a.cols = <<>>)) \/ (BaseForm(a.form) = "rowlist" /\ h[a.A].c = 0)
    [] m = "dn" /\ op = "set" -> LET B == h[a.B]
                                     A == h[a.A]
                                     tr == a.form \in {"subt", "subt5"}
                                     nr == IF tr THEN B.c ELSE B.r
                                     nc == IF tr THEN B.r ELSE B.c
                                 IN CASE a.form = "add" -> Len(a.rows) = B.r /\ Len(a.cols) = B.c /\ (a.rows = <<>> \/ a.cols = <<>>)
                                      [] a.form \in {"sub5", "subt5"} ->
                                           /\ RangeOK(a.i0, a.i1, A.r) /\ RangeOK(a.j0, a.j1, A.c)
                                           /\ (nr >= a.i1 - a.i0 /\ nc >= a.j1 - a.j0) \/ a.i1 = a.i0 \/ a.j1 = a.j0
                                      [] a.form = "rows" -> a.i0 >= 0 /\ a.i0 + B.r <= A.r /\ (B.c >= A.c \/ B.r = 0)
                                      [] a.form = "cols" -> a.j0 >= 0 /\ a.j0 + B.c <= A.c /\ (B.r >= A.r \/ B.c = 0)
                                      [] OTHER -> FALSE
    [] m = "dn" /\ op = "scale" -> Len(a.x) = IF a.form \in {"rows", "irows"} THEN h[a.A].r ELSE h[a.A].c
    [] m = "dn" /\ op = "inv" -> h[a.A].r = h[a.A].c
    [] m = "eig" -> NRows(h, a.A) = NCols(h, a.A)
    [] m = "it" /\ op \in {"solve", "free"} ->
         LET A == IF op = "solve" THEN h[a.S].A ELSE a.A
         IN /\ A # "" /\ SqOper(h, A)
            /\ op = "free" /\ a.ty \in {"pcg", "pminres"} => SqOper(h, a.M) /\ NRows(h, a.M) = NRows(h, A)
            /\ LenOf(h, a.b) = NRows(h, A)
            /\ op = "solve" \/ a.form = "out" => LenOf(h, a.x) = NRows(h, A)
    [] m = "sd" /\ op = "new" -> h[a.A].r = h[a.A].c
    [] OTHER -> FALSE

Eff(h, m, op, a, e) ==
  CASE m = "vec" -> VecEff(h, op, a, e)
    [] m = "life" -> LifeEff(h, op, a, e)
    [] m = "sp" -> SparseEff(h, op, a, e)
    [] m = "dn" -> (IF IsFact(op) THEN FactEff(h, op, a, e) ELSE DenseEff(h, op, a, e))
    [] m = "eig" -> EigEff(h, op, a, e)
    [] m = "it" -> ItEff(h, op, a, e)
    [] m = "sd" -> SdEff(h, op, a, e)
    [] m \in BuilderKinds -> BuildEff(h, m, op, a, e)
    [] m = "bv" -> BvEff(h, op, a, e)
    [] m = "bm" -> BmEff(h, op, a, e)
    [] m = "bo" -> BoEff(h, op, a, e)
    [] m = "op" -> OpEff(h, op, a, e)
    [] m = "file" -> FileEff(h, op, a, e)
    [] m = "x" -> XEff(h, op, a, e)
    [] m = "ap" -> ApEff(h, op, a, e)
    [] m = "tm" -> TmEff(h, op, a, e)
    [] m = "pt" -> PtEff(h, op, a, e)
    [] m = "print" -> PrintEff(h, op, a, e)
    [] m = "pm" -> PmEff(h, op, a, e)
    [] m = "pv" -> PvEff(h, op, a, e)
    [] m = "ps" -> PsEff(h, op, a, e)

(* does the observed object o show what the specification says of slot s? *)
Match(h2, s, o) ==
  LET x == h2[s] IN
  CASE x.k = "view" -> o.k = "view" /\ o.t = x.t /\ o.v = VecOf(h2, s)
    [] x.k = "sp" -> o.k = "sp" /\ SameSp(x, o)
    [] x.k \in BuilderKinds -> BMatch(x, o)
    [] x.k = "bm" -> BmMatch(x, o)
    [] x.k = "bo" -> BoMatch(x, o)
    [] x.k = "it" -> ItMatch(h2, x, o)
    [] x.k = "sd" -> SdMatch(x, o)
    [] x.k = "file" -> FileMatch(x, o)
    [] x.k = "xm" -> XmMatch(x, o)
    [] x.k = "ap" -> ApMatch(x, o)
    [] x.k = "tm" -> TmMatch(x, o)
    [] x.k = "pm" -> o.k = "pm" /\ PmOK(o) /\ PmSame(x, o)
    [] x.k = "ps" -> PsMatch(x, o)
    [] OTHER -> o = x

(* slot s is not mentioned in an event: what can be seen of it did not change *)
Unchanged(h1, h2, s) ==
  /\ s \in DOMAIN h1
  /\ h1[s].k = h2[s].k
  /\ CASE h2[s].k = "view" -> VecOf(h2, s) = VecOf(h1, s) /\ h2[s].t = h1[s].t
       [] h2[s].k = "sp" -> h2[s] = h1[s] \/ SameSp(h2[s], h1[s])
       [] h2[s].k \in BuilderKinds ->
            \/ h2[s] = h1[s]
            \* a builder without size and entries shows itself as 1 x 1
            \/ /\ h2[s].t = h1[s].t
               /\ BSized(h2[s]) => BDn(h2[s]) = (IF BSized(h1[s]) THEN BDn(h1[s]) ELSE Dn(1, 1, <<0>>))
       [] h2[s].k = "file" -> FileMatch(h2[s], h1[s])
       [] h2[s].k = "xm" -> h2[s] = h1[s] \/ XmMatch(h2[s], h1[s])
       [] h2[s].k = "ap" -> [h2[s] EXCEPT !.vals = <<>>] = [h1[s] EXCEPT !.vals = <<>>]
       [] h2[s].k = "tm" -> h2[s].iv = h1[s].iv
       [] h2[s].k = "it" -> h2[s].ty = h1[s].ty /\ h2[s].A = h1[s].A /\ h2[s].it = h1[s].it
       [] h2[s].k = "sd" -> Len(h2[s].rows) = Len(h1[s].rows)
       [] h2[s].k = "pm" -> h2[s] = h1[s] \/ PmSame(h2[s], h1[s])
       [] h2[s].k = "ps" -> PsVisible(h2[s]) = PsVisible(h1[s]) /\ (h2[s].L = h1[s].L \/ PmSame(h2[s], h1[s]))
       [] OTHER -> h2[s] = h1[s]

(* orders the code may choose freely are taken from the observation *)
Adopt(h1, h2, d) ==
  [s \in DOMAIN h2 |->
     CASE h2[s].k \in {"sp", "file", "xm", "pm"} -> (IF s \in DOMAIN d THEN d[s] ELSE h1[s])
       [] h2[s].k = "bm" -> (IF s \in DOMAIN d THEN [h2[s] EXCEPT !.b = d[s].b] ELSE h1[s])
       [] OTHER -> h2[s]]
=============================================================================
