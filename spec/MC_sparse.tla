------------------------------ MODULE MC_sparse ------------------------------
(* Sparse matrices: every small matrix through every accessor (acc: C03),   *)
(* product, transpose and submatrix (prod: C04) and in-place edit (edit:    *)
(* C05); laws of the mathematics the specification states.                  *)
EXTENDS SmallMats
CONSTANTS Group, Size

-----------------------------------------------------------------------------
(* C03 *)
AccForms == <<"rows", "cols", "nnz", "indptr", "indices", "data", "mindptr", "mindices", "mdata", "sum", "maxnorm">>
AccProg(t, m) ==
  LET A(f) == [t |-> t, A |-> "A", form |-> f]
      Ai(f, i) == [t |-> t, A |-> "A", form |-> f, i |-> i]
  IN <<New(t, "A", m)>>
     \o [i \in 1..Len(AccForms) |-> C("sp", "acc", A(AccForms[i]))]
     \o When(m.r = m.c, <<C("sp", "acc", A("diag"))>>)
     \o FlatMap(Idx0(m.r), LAMBDA i : <<C("sp", "acc", Ai("rowidx", i)), C("sp", "acc", Ai("rowdata", i)), C("sp", "acc", Ai("rowview", i)), C("sp", "acc", Ai("rowsize", i)),
                                        C("sp", "viewidx", [t |-> t, A |-> "A", i |-> i, z |-> "w"]), C("vec", "list", [t |-> "i", x |-> "w", form |-> "const"]), Del("w")>>)
     \o FlatMap(Idx0(Len(m.j)), LAMBDA q : <<C("sp", "setdata", [t |-> t, A |-> "A", i |-> q, val |-> 8])>>)
     \o <<C("sp", "todense", [t |-> t, A |-> "A", z |-> "D", tr |-> 0, form |-> "ret"]), C("sp", "todense", [t |-> t, A |-> "A", z |-> "D", tr |-> 1, form |-> "out"]),
          Copy("A", "B"), C("sp", "sort", [t |-> t, A |-> "B"]), C("life", "move", [x |-> "A", z |-> "B"]), C("sp", "acc", [t |-> t, A |-> "B", form |-> "nnz"]),
          C("life", "assign", [x |-> "A", y |-> "B"]), C("sp", "acc", A("indices"))>>
AccShapes == IF Size = 1 THEN {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>} ELSE {<<3, 3>>, <<2, 4>>, <<4, 2>>, <<3, 2>>, <<1, 4>>}
AccMats == UNION {BothOrders(s[1], s[2]) : s \in AccShapes} \cup (IF Size = 1 THEN FullMats(1, 2, "up") \cup FullMats(2, 1, "up") ELSE FullMats(2, 2, "down"))
AltNew(t) == {<<C("sp", "new", [t |-> t, z |-> "A", form |-> "default"])>>}
   \cup {<<C("sp", "new", [t |-> t, z |-> "A", form |-> "size", r |-> n])>> : n \in 0..3}
   \cup {<<C("sp", "new", [t |-> t, z |-> "A", form |-> "empty", r |-> n, c |-> k])>> : n \in 0..2, k \in 0..2}
   \cup {<<C("sp", "new", [t |-> t, z |-> "A", form |-> "diag", x |-> x])>> : x \in Seqs({0, 3, -1}, 0, 3)}
AccPrograms == Map({"d", "i"} \X AccMats, LAMBDA q : AccProg(q[1], q[2])) \o FlatMap({"d", "i"}, LAMBDA t : AsSeq(AltNew(t)))

-----------------------------------------------------------------------------
(* C04 *)
MulC(f, t, u) == C("sp", "mul", [t |-> t, u |-> u, A |-> "A", B |-> "B", z |-> "z", w |-> "ws", form |-> f])
PairProg(t, u, A, B) ==
  <<New(t, "A", A), New(u, "B", B), MulC("plain", t, u), C("sp", "todense", [t |-> IF t = "i" /\ u = "i" THEN "i" ELSE "d", A |-> "z", z |-> "D", tr |-> 0, form |-> "ret"]),
    ArrNew("ws", [i \in 1..((Len(A.j) + Len(B.j)) % 4) |-> ((i * 3) % 5) - 1]), MulC("marker", t, u), MulC("marker", t, u)>>
SubProg(t, m) ==
  LET R == Seqs(Idx0(m.r), 0, IF m.r < 3 THEN 2 ELSE 1)
      K == InjSeqs(m.c, 0, m.c)
  IN <<New(t, "A", m), ArrNew("ws", [i \in 1..(m.c + 1) |-> -1])>>
     \o FlatMap({"d", "i"}, LAMBDA u : <<C("sp", "transpose", [t |-> t, u |-> u, A |-> "A", z |-> "z"])>>)
     \o FlatMap(R \X K, LAMBDA q : <<C("sp", "submat", [t |-> t, A |-> "A", rows |-> q[1], cols |-> q[2], z |-> "z", form |-> "marker", w |-> "ws"])>>)
     \o FlatMap(R \X {k \in K : Len(k) = Min2(2, m.c)}, LAMBDA q : <<C("sp", "submat", [t |-> t, A |-> "A", rows |-> q[1], cols |-> q[2], z |-> "z", form |-> "plain"])>>)
     \o FlatMap({"mult", "multat", "multct", "mult-out", "multat-out", "multct-out"}, LAMBDA f :
          LET k == IF f \in {"multat", "multat-out"} THEN m.r ELSE m.c
          IN <<DnNew("B", k, 2, DnVals(k, 2)), DnNew("D", 1, 2, <<7, 8>>), C("sp", "muld", [t |-> t, A |-> "A", B |-> "B", z |-> "D", form |-> f])>>)
ProdPairs == IF Size = 1 THEN (PatMats(2, 2, "up") \X PatMats(2, 2, "down")) \cup (BothOrders(1, 2) \X BothOrders(2, 3)) \cup (PatMats(3, 1, "up") \X BothOrders(1, 2))
             ELSE (BothOrders(2, 2) \X BothOrders(2, 3)) \cup (BothOrders(2, 3) \X PatMats(3, 2, "down")) \cup (FullMats(1, 2, "up") \X FullMats(2, 1, "up"))
Degenerate == {<<Csr(0, 2, <<>>, "up"), Csr(2, 1, [q \in Cells(2, 1) |-> 2], "up")>>, <<Csr(2, 0, <<>>, "up"), Csr(0, 3, <<>>, "up")>>,
               <<Csr(2, 1, [q \in Cells(2, 1) |-> 1], "up"), Csr(1, 0, <<>>, "up")>>, <<Csr(0, 0, <<>>, "up"), Csr(0, 0, <<>>, "up")>>}
SubMats == UNION {BothOrders(s[1], s[2]) : s \in IF Size = 1 THEN {<<0, 2>>, <<2, 0>>, <<1, 3>>, <<2, 2>>, <<2, 3>>} ELSE {<<3, 3>>, <<2, 4>>, <<3, 2>>, <<1, 4>>}}
ProdPrograms == Map(ProdPairs, LAMBDA q : PairProg("d", "d", q[1], q[2])) \o FlatMap(({"d", "i"} \X {"d", "i"}) \X Degenerate, LAMBDA q : <<PairProg(q[1][1], q[1][2], q[2][1], q[2][2])>>)
   \o Map(PatMats(2, 2, "down") \X PatMats(2, 1, "up"), LAMBDA q : PairProg("i", "d", q[1], q[2]))
   \o Map(PatMats(2, 2, "down") \X PatMats(2, 1, "up"), LAMBDA q : PairProg("i", "i", q[1], q[2]))
   \o Map(SubMats, LAMBDA m : SubProg(IF Len(m.j) % 2 = 0 THEN "d" ELSE "i", m))

-----------------------------------------------------------------------------
(* C05: every edit of a copy *)
EditSet(t, m) ==
  LET A(r) == [t |-> t, A |-> "B"] @@ r
      n == m.r
      k == m.c
      Masks == Seqs({0, 1}, k, k) \cup {[i \in 1..(k + 2) |-> i % 2]}
      Sc(f, cnt) == {C("sp", "scale", A([form |-> f, x |-> [i \in 1..cnt |-> IF f \in {"irows", "icols"} THEN (IF i % 2 = 0 THEN -1 ELSE 1) ELSE i - 2]]))}
  IN {C("sp", "sort", A(<<>>)), C("sp", "elimzeros", A(<<>>))}
     \cup {C("sp", "elimzeros", A([tol |-> v])) : v \in {0, 1, 2, 3}}
     \cup (IF n = k THEN {C("sp", "adddiag", A([form |-> "val", val |-> 3])), C("sp", "adddiag", A([form |-> "vec", x |-> [i \in 1..n |-> i - 2]]))} ELSE {})
     \cup {C("sp", "sca", A([u |-> u, form |-> "mul", val |-> v])) : u \in {"d", "i"}, v \in {0, 2, -1}}
     \cup {C("sp", "sca", A([u |-> u, form |-> "set", val |-> v])) : u \in {"d", "i"}, v \in {3}}
     \cup {C("sp", "sca", A([u |-> u, form |-> "div", val |-> -1])) : u \in {"d", "i"}}
     \cup {C("sp", "expr", [t |-> t, u |-> "d", A |-> "A", z |-> "B", form |-> f, val |-> -2]) : f \in {"xv", "vx"}}
     \cup Sc("rows", n) \cup Sc("irows", n) \cup Sc("cols", k) \cup Sc("icols", k)
     \cup {C("sp", "permcols", A([perm |-> p])) : p \in Perms(k)}
     \cup {C("sp", "elim", A([form |-> "row", i |-> i])) : i \in Idx0(n)}
     \cup {C("sp", "elim", A([form |-> "col", i |-> i])) : i \in Idx0(k)}
     \cup {C("sp", "elim", A([form |-> "rowcol", i |-> i])) : i \in Idx0(Min2(n, k))}
     \cup {C("sp", "elim", A([form |-> "colm", mask |-> q, bool |-> b])) : q \in Masks, b \in {0, 1}}
     \cup (IF n = k THEN {C("sp", "elim", A([form |-> "rowcolm", mask |-> q, bool |-> b])) : q \in Masks, b \in {0, 1}} ELSE {})
     \cup {C("sp", "elim", A([form |-> "colmb", mask |-> q, bool |-> 0, x |-> "x", b |-> "b"])) : q \in Masks}
EditProg(t, m) ==
  <<New(t, "A", m), VecOp("d", "x", TestVec(m.c)), VecOp("d", "b", TestVec(m.r))>>
  \o FlatMap(EditSet(t, m), LAMBDA c : <<Copy("A", "B"), c>>)
  \* two edits in a row: zeros left by an elimination, then removed
  \o FlatMap(Idx0(m.c), LAMBDA i : <<Copy("A", "B"), C("sp", "elim", [t |-> t, A |-> "B", form |-> "col", i |-> i]), C("sp", "elimzeros", [t |-> t, A |-> "B"]),
                                     C("sp", "acc", [t |-> t, A |-> "B", form |-> "nnz"])>>)
EditMats == IF Size = 1 THEN UNION {BothOrders(s[1], s[2]) : s \in {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>}} \cup FullMats(2, 2, "up")
            ELSE UNION {BothOrders(s[1], s[2]) : s \in {<<3, 3>>, <<3, 2>>, <<2, 4>>}} \cup FullMats(2, 2, "down")
EditPrograms == Map(EditMats, LAMBDA m : EditProg("d", m)) \o Map(BothOrders(2, 2), LAMBDA m : EditProg("i", m))

-----------------------------------------------------------------------------
Programs == CASE Group = "acc" -> AccPrograms [] Group = "prod" -> ProdPrograms [] OTHER -> EditPrograms

(* laws: the specification's own mathematics *)
Law ==
  /\ (pc = 2 /\ IsSp(heap, "A")) => LET m == heap["A"] IN
       /\ SameSp(m, SpTrans(SpTrans(m, m.t), m.t))
       /\ RowsOfSp(SpTrans(m, m.t)) = TransRows(RowsOfSp(m), m.r, m.c)
       /\ SameSp(m, SortRows(m))
       /\ SameSp(m, SpSub(m, [i \in 1..m.r |-> i - 1], [i \in 1..m.c |-> i - 1]))
  /\ (Group = "prod" /\ IsSp(heap, "z") /\ IsSp(heap, "B") /\ pc = 4) =>
       LET A == heap["A"]
           B == heap["B"]
           Z == heap["z"]
       IN /\ RowsOfSp(Z) = MulRows(RowsOfSp(A), RowsOfSp(B), A.r, A.c, B.c)
          /\ SameSp(SpTrans(Z, "d"), SpMul(SpTrans(B, "d"), SpTrans(A, "d"), "d"))
          \* the pattern is the structural one
          /\ \A i \in 1..A.r : RowCols(Z, i - 1) = UNION {RowCols(B, q) : q \in RowCols(A, i - 1)}
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
