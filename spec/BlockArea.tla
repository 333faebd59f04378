----------------------------- MODULE BlockArea -----------------------------
(* Block vectors, block matrices, block operators (C11), and any operator    *)
(* used through the common base class (C01).                                 *)
(*   bvec  [k, t, v, off]                                                    *)
(*   bm    [k, t, ro, co, b]  b: row-major sequence of sparse blocks         *)
(*   bo    [k, ro, co, b]     b: row-major sequence of slot names ("": none) *)
EXTENDS BuildArea

Offsets(o) == Len(o) >= 1 /\ o[1] = 0 /\ \A i \in 1..(Len(o) - 1) : o[i] <= o[i + 1]
LastOf(o) == o[Len(o)]
NB(o) == Len(o) - 1
Pos(m, i, j) == i * NB(m.co) + j + 1                        \* 0-based block indices
NoBlock(t) == MkSp(t, 0, 0, <<>>)
BlkIn(m, a) == a.i >= 0 /\ a.j >= 0 /\ a.i < NB(m.ro) /\ a.j < NB(m.co)
Width(o, i) == o[i + 2] - o[i + 1]                          \* 0-based

(* a block without entries may be reported in any shape *)
BlkEq(x, o) == SameSp(x, o) \/ (x.t = o.t /\ Nnz(x) = 0 /\ Nnz(o) = 0 /\ SpOK(o))

BmMatch(m, o) ==
  /\ o.k = "bm" /\ o.t = m.t /\ o.ro = m.ro /\ o.co = m.co /\ o.r = LastOf(m.ro) /\ o.c = LastOf(m.co)
  /\ Len(o.b) = Len(m.b) /\ \A q \in 1..Len(m.b) : BlkEq(m.b[q], o.b[q])
BoMatch(m, o) == o.k = "bo" /\ o.ro = m.ro /\ o.co = m.co /\ o.r = LastOf(m.ro) /\ o.c = LastOf(m.co) /\ o.b = m.b

BlkOf(i, off) == CHOOSE b \in 1..NB(off) : off[b] < i /\ i <= off[b + 1]
(* rows of the monolithic matrix; R[q] are the rows of block q, <<>> for a zero block *)
Assemble(ro, co, R) ==
  TLCEval([i \in 1..LastOf(ro) |->
     LET bi == BlkOf(i, ro)
     IN TLCEval(Concat([bj \in 1..NB(co) |->
          LET q == (bi - 1) * NB(co) + bj
          IN IF R[q] = <<>> THEN Zeros(co[bj + 1] - co[bj]) ELSE R[q][i - ro[bi]]]))])

OperKinds == {"sp", "dn", "coo", "lil", "bm", "bo"}
IsOper(h, s) == IsK(h, s, OperKinds)
NRows(h, s) ==
  LET m == h[s] IN CASE m.k \in {"sp", "dn"} -> m.r [] m.k \in BuilderKinds -> BRows(m) [] OTHER -> LastOf(m.ro)
NCols(h, s) ==
  LET m == h[s] IN CASE m.k \in {"sp", "dn"} -> m.c [] m.k \in BuilderKinds -> BCols(m) [] OTHER -> LastOf(m.co)

(* everything a block operator refers to is there and has the right shape *)
RECURSIVE OpReady(_, _)
OpReady(h, s) ==
  /\ IsOper(h, s)
  /\ (h[s].k \in BuilderKinds => BSized(h[s]))
  /\ h[s].k = "bo" =>
       LET m == h[s] IN
       \A i \in 0..(NB(m.ro) - 1) : \A j \in 0..(NB(m.co) - 1) :
          LET w == m.b[Pos(m, i, j)]
          IN w # "" => OpReady(h, w) /\ NRows(h, w) = Width(m.ro, i) /\ NCols(h, w) = Width(m.co, j)

RECURSIVE OpRows(_, _)
OpRows(h, s) ==
  LET m == h[s] IN
  CASE m.k = "sp" -> RowsOfSp(m)
    [] m.k = "dn" -> RowsOfDn(m)
    [] m.k \in BuilderKinds -> RowsOfDn(BDn(m))
    [] m.k = "bm" -> Assemble(m.ro, m.co, TLCEval([q \in 1..Len(m.b) |-> IF Nnz(m.b[q]) = 0 THEN <<>> ELSE RowsOfSp(m.b[q])]))
    [] m.k = "bo" -> Assemble(m.ro, m.co, TLCEval([q \in 1..Len(m.b) |-> IF m.b[q] = "" THEN <<>> ELSE OpRows(h, m.b[q])]))

(* an object a block operator points to must stay where it is *)
Held(h, s) == \E w \in DOMAIN h : \/ (h[w].k = "bo" /\ s \in Rng(h[w].b))
                                      \/ (h[w].k = "it" /\ s \in {h[w].A, h[w].M})

BvPre(h, op, a) ==
  CASE op = "new" -> /\ a.form # "default" => Offsets(a.off)
                     /\ a.form = "data" => IsVecT(h, a.x, a.t) /\ LenOf(h, a.x) = LastOf(a.off)
    [] op = "offsets" -> IsK(h, a.x, {"bvec"}) /\ h[a.x].t = a.t
    [] op \in {"block", "read"} -> IsK(h, a.x, {"bvec"}) /\ h[a.x].t = a.t /\ a.i >= 0 /\ a.i < NB(h[a.x].off)
    [] op = "set" -> IsK(h, a.x, {"bvec"}) /\ h[a.x].t = a.t
    [] op = "setview" -> IsK(h, a.x, {"bvec"}) /\ IsVecT(h, a.y, a.t) /\ h[a.x].t = a.t /\ Len(h[a.x].v) = LenOf(h, a.y) /\ ~Pinned(h, a.x)
BvEff(h, op, a, e) ==
  CASE op = "new" ->
         LET off == IF a.form = "default" THEN <<0>> ELSE a.off
             v == CASE a.form = "val" -> Const(LastOf(off), a.val)
                    [] a.form = "data" -> VecOf(h, a.x)
                    [] OTHER -> Zeros(LastOf(off))
         IN Do(Put(h, a.z, [k |-> "bvec", t |-> a.t, v |-> v, off |-> off]))
    [] op = "offsets" -> Ret(h, h[a.x].off)
    [] op = "block" -> LET o == h[a.x].off IN
         Do(Put(h, a.z, [k |-> "view", t |-> a.t, o |-> a.x, f |-> "v", off |-> o[a.i + 1], n |-> Width(o, a.i)]))
    [] op = "read" -> LET o == h[a.x].off IN Ret(h, SubSeq(h[a.x].v, o[a.i + 1] + 1, o[a.i + 2]))
    [] op = "set" -> Do([h EXCEPT ![a.x] = [@ EXCEPT !.v = Const(Len(@), a.val)]])
    [] op = "setview" -> Do([h EXCEPT ![a.x] = [@ EXCEPT !.v = VecOf(h, a.y)]])

IsBm(h, a) == IsK(h, a.A, {"bm"}) /\ h[a.A].t = a.t
BmPre(h, op, a) ==
  CASE op = "new" -> (a.form # "default" => Offsets(a.ro)) /\ (a.form = "rc" => Offsets(a.co))
    [] op = "setblock" -> LET m == h[a.A] IN
         /\ IsBm(h, a) /\ BlkIn(m, a) /\ IsK(h, a.B, {"sp"}) /\ h[a.B].t = a.t
         /\ h[a.B].r = Width(m.ro, a.i) /\ h[a.B].c = Width(m.co, a.j)
    [] op = "getblock" -> IsBm(h, a) /\ BlkIn(h[a.A], a)
    [] OTHER -> IsBm(h, a)
BmEff(h, op, a, e) ==
  CASE op = "new" ->
         LET ro == IF a.form = "default" THEN <<0>> ELSE a.ro
             co == IF a.form = "rc" THEN a.co ELSE ro
         IN Do(Put(h, a.z, [k |-> "bm", t |-> a.t, ro |-> ro, co |-> co, b |-> [q \in 1..(NB(ro) * NB(co)) |-> NoBlock(a.t)]]))
    [] op = "acc" -> LET m == h[a.A] IN
         Ret(h, (CASE a.form = "rows" -> LastOf(m.ro) [] a.form = "cols" -> LastOf(m.co) [] a.form = "ro" -> m.ro [] OTHER -> m.co))
    [] op = "setblock" -> LET p == Pos(h[a.A], a.i, a.j) IN
         Do([h EXCEPT ![a.A] = [@ EXCEPT !.b = [@ EXCEPT ![p] = h[a.B]]]])
    [] op = "getblock" ->
         LET m == h[a.A]
             x == m.b[Pos(m, a.i, a.j)]
             o == IF a.z \in DOMAIN e.d THEN e.d[a.z] ELSE h[a.z]
         IN [h |-> Put(h, a.z, o), r |-> <<>>, m |-> memo, ok |-> o.k = "sp" /\ BlkEq(x, o)]
    [] op = "transpose" ->
         LET m == h[a.A]
         IN Do(Put(h, a.z, [m EXCEPT !.ro = m.co, !.co = m.ro, !.b = TLCEval([q \in 1..Len(m.b) |->
                LET x == m.b[((q - 1) % NB(m.ro)) * NB(m.co) + ((q - 1) \div NB(m.ro)) + 1]
                    R == Rows(x)
                IN MkSp(x.t, x.c, x.r, [c \in 1..x.c |-> [i \in {i \in 0..(x.r - 1) : (c - 1) \in DOMAIN R[i + 1]} |-> R[i + 1][c - 1]]])])]))
    [] op = "combine" ->
         LET m == h[a.A]
             n == NB(m.co)
             R == TLCEval([q \in 1..Len(m.b) |-> Rows(m.b[q])])
             row(i) == LET bi == BlkOf(i, m.ro)
                           Q == {bj \in 1..n : Nnz(m.b[(bi - 1) * n + bj]) > 0}
                           rw(bj) == R[(bi - 1) * n + bj][i - m.ro[bi]]
                           D == UNION {{m.co[bj] + c : c \in DOMAIN rw(bj)} : bj \in Q}
                       IN TLCEval([c \in D |-> LET bj == BlkOf(c + 1, m.co) IN rw(bj)[c - m.co[bj]]])
         IN Do(Put(h, a.z, MkSp(m.t, LastOf(m.ro), LastOf(m.co), TLCEval([i \in 1..LastOf(m.ro) |-> row(i)]))))

BoPre(h, op, a) ==
  CASE op = "new" -> (a.form # "default" => Offsets(a.ro)) /\ (a.form = "rc" => Offsets(a.co))
    [] op = "setblock" -> LET m == h[a.A] IN
         /\ IsK(h, a.A, {"bo"}) /\ BlkIn(m, a) /\ OpReady(h, a.B)
         /\ NRows(h, a.B) = Width(m.ro, a.i) /\ NCols(h, a.B) = Width(m.co, a.j)
    [] op = "getblock" -> IsK(h, a.A, {"bo"}) /\ BlkIn(h[a.A], a)
    [] OTHER -> IsK(h, a.A, {"bo"})
BoEff(h, op, a, e) ==
  CASE op = "new" ->
         LET ro == IF a.form = "default" THEN <<0>> ELSE a.ro
             co == IF a.form = "rc" THEN a.co ELSE ro
         IN Do(Put(h, a.z, [k |-> "bo", ro |-> ro, co |-> co, b |-> [q \in 1..(NB(ro) * NB(co)) |-> ""]]))
    [] op = "acc" -> LET m == h[a.A] IN
         Ret(h, (CASE a.form = "rows" -> LastOf(m.ro) [] a.form = "cols" -> LastOf(m.co) [] a.form = "ro" -> m.ro [] OTHER -> m.co))
    [] op = "setblock" -> LET p == Pos(h[a.A], a.i, a.j) IN
         Do([h EXCEPT ![a.A] = [@ EXCEPT !.b = [@ EXCEPT ![p] = a.B]]])
    [] op = "getblock" -> Ret(h, h[a.A].b[Pos(h[a.A], a.i, a.j)])

(* any operator through its base class *)
OpPre(h, op, a) ==
  CASE op = "size" -> OpReady(h, a.A)
    [] op = "apply" ->
         LET nin == IF a.tr = 1 THEN NRows(h, a.A) ELSE NCols(h, a.A)
             nout == IF a.tr = 1 THEN NCols(h, a.A) ELSE NRows(h, a.A)
         IN /\ OpReady(h, a.A) /\ IsVecT(h, a.x, "d") /\ LenOf(h, a.x) = nin
            /\ a.form = "view" => IsVecT(h, a.z, "d") /\ LenOf(h, a.z) = nout
            /\ a.form = "resize" => IsK(h, a.z, {"vec"}) /\ h[a.z].t = "d" /\ ~Pinned(h, a.z)
    [] op = "inner" -> /\ OpReady(h, a.A) /\ IsVecT(h, a.x, "d") /\ IsVecT(h, a.y, "d")
                       /\ LenOf(h, a.x) = NCols(h, a.A) /\ LenOf(h, a.y) = NRows(h, a.A)
OpEff(h, op, a, e) ==
  CASE op = "size" -> Ret(h, <<NRows(h, a.A), NCols(h, a.A)>>)
    [] op = "apply" ->
         LET R == OpRows(h, a.A)
             n == NRows(h, a.A)
             c == NCols(h, a.A)
             x == VecOf(h, a.x)
             y == IF a.tr = 1 THEN MulVecT(R, n, c, x) ELSE MulVec(R, n, c, x)
         IN Do(IF a.form = "view" THEN SetVec(h, a.z, y) ELSE Put(h, a.z, Vec("d", y)))
    [] op = "inner" ->
         LET R == OpRows(h, a.A)
             n == NRows(h, a.A)
             y == MulVec(R, n, NCols(h, a.A), VecOf(h, a.x))
             w == VecOf(h, a.y)
         IN IF \E i \in 1..n : Abs(y[i]) > 15000          \* out of the fixed-point range
              THEN RetObs(h, e)
              ELSE Ret(h, Descale(SumTo(n, LAMBDA i : y[i] * w[i])))
=============================================================================
