------------------------------- MODULE MC_mis -------------------------------
(* Misuse (C19): every call that indexes or pairs operands, with every      *)
(* index around the valid ones and every pairing of operands of different   *)
(* sizes.  Each is made in a copy of the process: the specification says    *)
(* which must be accepted and which must be refused; none changes anything. *)
EXTENDS SmallMats
CONSTANTS Group, Size

Wrong == {-1, 0, 1, 2, 3, 4, 400}
WrongL(lo, hi) == Seqs({-1, 0, 1, 2, 3}, lo, hi)
M(m, op, r) == Mis(m, op, r)
Per == 60
Chunks(setup, cs) == LET n == (Len(cs) + Per - 1) \div Per
                     IN [k \in 1..n |-> setup \o SubSeq(cs, (k - 1) * Per + 1, Min2(k * Per, Len(cs)))]

-----------------------------------------------------------------------------
VecSet == Flat([n \in 1..5 |-> <<VecOp("d", <<"v0", "v1", "v2", "v3", "v4">>[n], TestVec(n - 1)), VecOp("i", <<"n0", "n1", "n2", "n3", "n4">>[n], TestVec(n - 1))>>])
          \o <<VecOp("d", "u", <<1, 2, 3, 4>>), C("vec", "viewptr", [t |-> "d", z |-> "w", x |-> "u", off |-> 1, n |-> 2]), C("vec", "viewdefault", [t |-> "d", z |-> "w0"])>>
Vd == {"v0", "v1", "v2", "v3", "w", "w0"}
Vo == {"v0", "v1", "v2", "v3"}
Vi == {"n0", "n1", "n2", "n3"}
VecCalls ==
  LET P == {q \in Vd \X Vd : q[1] # q[2]}
      Td(r) == [t |-> "d"] @@ r
  IN FlatMap(Vd \X Wrong, LAMBDA q : <<M("vec", "put", Td([x |-> q[1], i |-> q[2], val |-> 5, form |-> "idx"])), M("vec", "get", Td([x |-> q[1], i |-> q[2], form |-> "const"])), M("vec", "get", Td([x |-> q[1], i |-> q[2], form |-> "ref"]))>>)
     \o FlatMap(Vi \X Wrong, LAMBDA q : <<M("vec", "get", [t |-> "i", x |-> q[1], i |-> q[2], form |-> "const"])>>)
     \o FlatMap({"v0", "v2", "w"} \X WrongL(0, 2), LAMBDA q : <<M("vec", "sub", Td([x |-> q[1], idx |-> q[2], z |-> "s", form |-> "ret"])), M("vec", "sub", Td([x |-> q[1], idx |-> q[2], z |-> "v3", form |-> "out"]))>>)
     \o FlatMap({"w", "w0"} \X Vd, LAMBDA q : FlatMap({"const", "move", "lvalue"}, LAMBDA f : <<M("vec", "assign", Td([x |-> q[1], y |-> q[2], form |-> f]))>>))
     \o FlatMap(P \X {"add", "sub", "set", "add1", "sub1", "set1"}, LAMBDA q : <<M("vec", "axpy", Td([x |-> q[1][1], y |-> q[1][2], al |-> 2, form |-> q[2]]))>>)
     \o FlatMap(P \X {"mul", "add", "sub"}, LAMBDA q : <<M("vec", "ew", Td([x |-> q[1][1], y |-> q[1][2], form |-> q[2]]))>>)
     \o FlatMap({"v0", "v1", "v2", "w"} \X Vi, LAMBDA q : <<M("vec", "ewmix", Td([x |-> q[1], y |-> q[2]]))>>)
     \o FlatMap(P \X {"mem", "op", "free"}, LAMBDA q : <<M("vec", "dot", Td([x |-> q[1][1], y |-> q[1][2], form |-> q[2]]))>>)
     \o FlatMap({q \in Vo \X Vo : q[1] # q[2]} \X {"add", "sub"}, LAMBDA q : <<M("vec", "expr", Td([x |-> q[1][1], y |-> q[1][2], z |-> "e", form |-> q[2]]))>>)
     \o FlatMap(P, LAMBDA q : <<M("vec", "eq", [t |-> "d", u |-> "d", x |-> q[1], y |-> q[2]])>>)
     \o FlatMap({"v0", "v1", "v2"} \X ({"v1", "v2", "w"} \X {"v3", "v2", "w"}), LAMBDA q :
          LET x == q[1]
              y == q[2][1]
              z == q[2][2]
          IN <<M("vec", "comb", Td([x |-> x, y |-> y, z |-> z, al |-> 1, be |-> 2, ga |-> 3])), M("vec", "addz", Td([x |-> x, y |-> y, z |-> z, form |-> "add"])), M("vec", "addz", Td([x |-> x, y |-> y, z |-> z, form |-> "sub"]))>>)

-----------------------------------------------------------------------------
Full(r, c) == Csr(r, c, [q \in Cells(r, c) |-> CellVal(q[1], q[2])], "up")
Diag(n) == Csr(n, n, [q \in Cells(n, n) |-> IF q[1] = q[2] THEN 2 + q[1] ELSE ABSENT], "up")
ShapeOf == [A02 |-> <<0, 2>>, A20 |-> <<2, 0>>, A22 |-> <<2, 2>>, A23 |-> <<2, 3>>, A32 |-> <<3, 2>>]
DShape == [D02 |-> <<0, 2>>, D20 |-> <<2, 0>>, D22 |-> <<2, 2>>, D23 |-> <<2, 3>>, D32 |-> <<3, 2>>, D33 |-> <<3, 3>>]
SpSet == FlatMap(DOMAIN ShapeOf, LAMBDA z : <<New("d", z, Full(ShapeOf[z][1], ShapeOf[z][2]))>>) \o <<New("d", "G2", Diag(2)), New("d", "G3", Diag(3))>>
DnSet == FlatMap(DOMAIN DShape, LAMBDA z : <<DnNew(z, DShape[z][1], DShape[z][2], DnVals(DShape[z][1], DShape[z][2]))>>)
SpN == DOMAIN ShapeOf
DnN == DOMAIN DShape
Ts(r) == [t |-> "d"] @@ r
SpCalls ==
  FlatMap(SpN \X Wrong, LAMBDA q :
     Flat([i \in 1..4 |-> <<M("sp", "acc", Ts([A |-> q[1], i |-> q[2], form |-> <<"rowidx", "rowdata", "rowview", "rowsize">>[i]]))>>])
     \o <<M("sp", "viewidx", Ts([A |-> q[1], i |-> q[2], z |-> "w9"]))>>
     \o Flat([i \in 1..3 |-> <<M("sp", "elim", Ts([A |-> q[1], i |-> q[2], form |-> <<"row", "col", "rowcol">>[i]]))>>]))
  \o FlatMap(SpN, LAMBDA z : <<M("sp", "acc", Ts([A |-> z, form |-> "diag"]))>>)
  \o FlatMap(SpN \X (0..4), LAMBDA q : FlatMap({0, 1}, LAMBDA b : <<M("sp", "elim", Ts([A |-> q[1], form |-> "colm", mask |-> [i \in 1..q[2] |-> i % 2], bool |-> b])),
                                                                   M("sp", "elim", Ts([A |-> q[1], form |-> "rowcolm", mask |-> [i \in 1..q[2] |-> i % 2], bool |-> b]))>>)
                                       \o <<M("sp", "adddiag", Ts([A |-> q[1], form |-> "vec", x |-> TestVec(q[2])])), M("sp", "adddiag", Ts([A |-> q[1], form |-> "val", val |-> 3]))>>
                                       \o FlatMap({"rows", "cols", "irows", "icols"}, LAMBDA f : <<M("sp", "scale", Ts([A |-> q[1], form |-> f, x |-> Const(q[2], -1)]))>>))
  \o FlatMap({"A22", "A23", "A32"} \X (0..4), LAMBDA q : FlatMap({"v1", "v2", "v3"} \X {"v2", "v3", "v4"}, LAMBDA p :
        <<M("sp", "elim", Ts([A |-> q[1], form |-> "colmb", mask |-> [i \in 1..q[2] |-> i % 2], bool |-> 0, x |-> p[1], b |-> p[2]]))>>))
  \o FlatMap(SpN \X {"G2", "G3", "A22", "A23"}, LAMBDA q : FlatMap({"rows", "cols"}, LAMBDA f : <<M("sp", "scale", Ts([A |-> q[1], form |-> f, D |-> q[2]]))>>))
  \o FlatMap(SpN \X SpN, LAMBDA q : <<M("sp", "mul", Ts([u |-> "d", A |-> q[1], B |-> q[2], z |-> "z9", form |-> "plain"]))>>)
  \o FlatMap(SpN \X DnN, LAMBDA q : FlatMap({"mult", "multat", "multct", "mult-out", "multat-out", "multct-out"}, LAMBDA f : <<M("sp", "muld", Ts([A |-> q[1], B |-> q[2], z |-> "O", form |-> f]))>>))
  \o FlatMap(SpN \X {"v0", "v1", "v2", "v3", "w"}, LAMBDA q : FlatMap({0, 1} \X {"v0", "v2", "v3", "v4"}, LAMBDA p :
        When(p[2] # q[2], <<M("sp", "mulv", Ts([u |-> "d", v |-> "d", A |-> q[1], x |-> q[2], tr |-> p[1], form |-> "view", z |-> p[2]]))>>))
        \o FlatMap({0, 1}, LAMBDA tr : <<M("sp", "mulv", Ts([u |-> "d", v |-> "d", A |-> q[1], x |-> q[2], tr |-> tr, form |-> "ret", z |-> "z9"]))>>))
  \o FlatMap({"A20", "A22", "A23"} \X (WrongL(0, 1) \cup (IF Size = 1 THEN {} ELSE WrongL(2, 2))), LAMBDA q :
        FlatMap({<<>>, <<0>>, <<1, 0>>}, LAMBDA s : <<M("sp", "submat", Ts([A |-> q[1], rows |-> q[2], cols |-> s, z |-> "z9", form |-> "plain"])), M("sp", "submat", Ts([A |-> q[1], rows |-> s, cols |-> q[2], z |-> "z9", form |-> "plain"])),
                                                      M("sp", "submat", Ts([A |-> q[1], rows |-> q[2], cols |-> s, z |-> "z9", w |-> "ws", form |-> "marker"])), M("sp", "submat", Ts([A |-> q[1], rows |-> s, cols |-> q[2], z |-> "z9", w |-> "ws", form |-> "marker"]))>>))
  \o FlatMap({"A22", "A23"} \X WrongL(1, IF Size = 1 THEN 2 ELSE 3), LAMBDA q : <<M("sp", "permcols", Ts([A |-> q[1], perm |-> q[2]]))>>)
  \* row pointers, column indices and values that do not describe a matrix
  \o FlatMap({0, 1, 2} \X (Seqs({0, 1, 2}, 0, 3)), LAMBDA q : FlatMap({<<>>, <<0>>, <<1, 0>>, <<0, 2>>, <<-1, 0>>}, LAMBDA j : FlatMap({Len(j)} \cup (IF q[1] = 1 THEN {1, 2} ELSE {}), LAMBDA n :
        <<M("sp", "new", Ts([z |-> "z9", form |-> "csr", r |-> q[1], c |-> 2, p |-> q[2], j |-> j, x |-> TestVec(n)]))>>)))
DnCalls ==
  LET X(op, r) == <<M("dn", op, r)>> IN
  FlatMap(DnN \X (Wrong \X {-1, 0, 1, 2, 3}), LAMBDA q : LET ij == [A |-> q[1], i |-> q[2][1], j |-> q[2][2]] IN X("acc", [form |-> "at"] @@ ij) \o X("acc", [form |-> "cat"] @@ ij) \o X("put", [form |-> "at", val |-> 7] @@ ij))
  \o FlatMap(DnN, LAMBDA z : X("acc", [A |-> z, form |-> "diag"]) \o X("acc", [A |-> z, form |-> "diag-out"]))
  \o FlatMap(DnN \X Wrong, LAMBDA q : FlatMap({"mut", "const"}, LAMBDA f : X("colview", [A |-> q[1], j |-> q[2], z |-> "w9", form |-> f]))
        \o FlatMap({"v0", "v2", "v3"}, LAMBDA v : X("getcol", [t |-> "d", A |-> q[1], i |-> q[2], z |-> v, form |-> "view"]) \o X("getrow", [t |-> "d", A |-> q[1], i |-> q[2], z |-> v, form |-> "view"])
                                                  \o X("setcol", [t |-> "d", A |-> q[1], i |-> q[2], x |-> v]) \o X("setrow", [t |-> "d", A |-> q[1], i |-> q[2], x |-> v]))
        \o X("getcol", [t |-> "d", A |-> q[1], i |-> q[2], z |-> "z9", form |-> "ret"]) \o X("getrow", [t |-> "d", A |-> q[1], i |-> q[2], z |-> "z9", form |-> "ret"]))
  \o FlatMap({"D20", "D22", "D32"} \X ((-1..4) \X (-1..4)), LAMBDA q : X("get", [A |-> q[1], i0 |-> q[2][1], i1 |-> q[2][2], z |-> "z9", form |-> "rows"]) \o X("get", [A |-> q[1], j0 |-> q[2][1], j1 |-> q[2][2], z |-> "z9", form |-> "cols"])
        \o X("get", [A |-> q[1], i0 |-> q[2][1], i1 |-> q[2][2], j0 |-> 0, j1 |-> 2, z |-> "z9", form |-> "range"]) \o X("get", [A |-> q[1], i0 |-> 0, i1 |-> 2, j0 |-> q[2][1], j1 |-> q[2][2], z |-> "O", form |-> "range-out"]))
  \o FlatMap({"D20", "D22", "D32"} \X WrongL(0, IF Size = 1 THEN 1 ELSE 2), LAMBDA q : X("get", [A |-> q[1], rows |-> q[2], z |-> "z9", form |-> "rowlist"])
        \o FlatMap({<<>>, <<0>>, <<1, 1>>}, LAMBDA s : X("get", [A |-> q[1], rows |-> q[2], cols |-> s, z |-> "z9", form |-> "list"]) \o X("get", [A |-> q[1], rows |-> s, cols |-> q[2], z |-> "O", form |-> "list-out"])
              \o FlatMap({"D22", "D23"} \ {q[1]}, LAMBDA B : X("set", [A |-> q[1], B |-> B, rows |-> q[2], cols |-> s, form |-> "add"]) \o X("set", [A |-> q[1], B |-> B, rows |-> s, cols |-> q[2], form |-> "add"]))))
  \o FlatMap({"D22", "D32", "D33"} \X ({"D20", "D22", "D23", "D32"} \X ((-1..3) \X (-1..3))), LAMBDA q : LET b == q[2][1]
                                                                                                         i == q[2][2][1]
                                                                                                         j == q[2][2][2]
                                                                                                         a(f) == [A |-> q[1], B |-> b, i0 |-> i, i1 |-> i + 2, j0 |-> j, j1 |-> j + 2, form |-> f]
        IN When(b # q[1], X("set", a("sub")) \o X("set", a("subt")) \o X("set", a("sub5")) \o X("set", a("subt5")) \o When(j = 0, X("set", a("rows"))) \o When(i = 0, X("set", a("cols")))))
  \o FlatMap(DnN \X DnN, LAMBDA q : FlatMap({"ab", "atb", "abt", "atbt"}, LAMBDA f : X("mul", [A |-> q[1], B |-> q[2], z |-> "z9", form |-> f]) \o X("mul", [A |-> q[1], B |-> q[2], z |-> "O", form |-> f \o "-out"]))
        \o FlatMap({"add", "sub"}, LAMBDA f : X("iarith", [A |-> q[1], B |-> q[2], form |-> f]) \o X("expr", [A |-> q[1], B |-> q[2], z |-> "z9", form |-> f])) \o X("eq", [A |-> q[1], B |-> q[2]])
        \o X("hstack", [list |-> <<q[1], q[2]>>, z |-> "z9", form |-> "plain"]))
  \o FlatMap(DnN \X (0..4), LAMBDA q : FlatMap({"rows", "cols", "irows", "icols"} \X {"std", "vec"}, LAMBDA f : X("scale", [A |-> q[1], form |-> f[1], u |-> f[2], x |-> Const(q[2], -1)])))
  \o FlatMap(DnN \X {"v0", "v1", "v2", "v3"}, LAMBDA q : FlatMap({0, 1} \X {"v0", "v2", "v3", "v4"}, LAMBDA p :
        When(p[2] # q[2], X("mulv", [A |-> q[1], u |-> "d", v |-> "d", x |-> q[2], tr |-> p[1], form |-> "view", z |-> p[2]]))) \o X("mulv", [A |-> q[1], u |-> "d", v |-> "d", x |-> q[2], tr |-> 0, form |-> "ret", z |-> "z9"]))
  \o FlatMap({0, 1, 2} \X {0, 1, 2}, LAMBDA q : FlatMap(0..5, LAMBDA n : X("new", [z |-> "z9", form |-> "data", r |-> q[1], c |-> q[2], v |-> TestVec(n)])))
  \o FlatMap({"D02", "D20", "D23", "D32"}, LAMBDA A : X("inv", [A |-> A, form |-> "in"]))

-----------------------------------------------------------------------------
BuildSet(k) == <<C(k, "new", [t |-> "d", z |-> "B", form |-> "rc", r |-> 2, c |-> 3]), C(k, "add", [t |-> "d", A |-> "B", form |-> "one", i |-> 1, j |-> 2, val |-> 4]), C(k, "new", [t |-> "d", z |-> "F", form |-> "auto", r |-> 0, c |-> 0])>>
BuildCalls(k) ==
  LET Add(r) == FlatMap({"B", "F"}, LAMBDA z : <<M(k, "add", [t |-> "d", A |-> z] @@ r)>>)
      Ls == WrongL(0, IF Size = 1 THEN 1 ELSE 2) \cup {<<0, 1>>, <<2, 0>>, <<1, 1>>, <<0, -1>>, <<3, 0>>}
      Ok == {<<>>, <<0>>, <<1, 0>>}
  IN FlatMap(Wrong \X {-1, 0, 1, 2, 3}, LAMBDA q : Add([form |-> "one", i |-> q[1], j |-> q[2], val |-> 2]) \o Add([form |-> "sym", i |-> q[1], j |-> q[2], val |-> 2]))
     \o FlatMap(Ls \X {"D20", "D22", "D23"}, LAMBDA q : Add([form |-> "blk1", rows |-> q[1], B |-> q[2]]) \o When(k = "coo", Add([form |-> "sblk1", rows |-> q[1], B |-> q[2], s |-> 2])))
     \o FlatMap((Ls \X Ok) \X {"D22", "D23", "D02"}, LAMBDA q : Add([form |-> "blk2", rows |-> q[1][1], cols |-> q[1][2], B |-> q[2]]) \o Add([form |-> "blk2", rows |-> q[1][2], cols |-> q[1][1], B |-> q[2]])
           \o When(k = "coo", Add([form |-> "sblk2", rows |-> q[1][1], cols |-> q[1][2], B |-> q[2], s |-> -1])))
     \o When(k = "coo",
          FlatMap((Ls \X {-1, 1, 3}) \X {"v0", "v1", "v2"}, LAMBDA q : FlatMap({"colv", "scolv"}, LAMBDA f : Add([form |-> f, rows |-> q[1][1], j |-> q[1][2], x |-> q[2], s |-> 2]))
                                                              \o FlatMap({"rowv", "srowv"}, LAMBDA f : Add([form |-> f, cols |-> q[1][1], i |-> q[1][2], x |-> q[2], s |-> 2])))
          \o FlatMap((Ls \X Ok) \X {0, 1, 2}, LAMBDA q : FlatMap({"list", "slist"}, LAMBDA f : Add([form |-> f, rows |-> q[1][1], cols |-> q[1][2], v |-> TestVec(q[2]), s |-> 2])))
          \o FlatMap((Ls \X Ok) \X {"v0", "v1", "v2"}, LAMBDA q : FlatMap({"listv", "slistv"}, LAMBDA f : Add([form |-> f, rows |-> q[1][2], cols |-> q[1][1], x |-> q[2], s |-> 2])))
          \o FlatMap(Seqs({-1, 0, 1, 2}, 0, 2), LAMBDA s : <<M(k, "perm", [t |-> "d", A |-> "B", form |-> "rows", rows |-> s, cols |-> <<0, 1, 2>>]), M(k, "perm", [t |-> "d", A |-> "B", form |-> "both", rows |-> s, cols |-> <<0, 2, 1>>])>>)
          \o FlatMap({<<>>, <<0>>, <<0, 1>>, <<0, 1, 3>>, <<2, 1, 0>>, <<-1, 1, 2>>, <<0, 1, 2, 3>>, <<0, 0, 1>>}, LAMBDA s : <<M(k, "perm", [t |-> "d", A |-> "B", form |-> "cols", rows |-> <<0, 1>>, cols |-> s])>>))

-----------------------------------------------------------------------------
BlkSet == <<VecOp("d", "x3", <<4, 5, 6>>), C("bv", "new", [t |-> "d", z |-> "V", form |-> "data", off |-> <<0, 0, 2, 3>>, x |-> "x3"]),
            C("bm", "new", [t |-> "d", z |-> "B", form |-> "rc", ro |-> <<0, 2, 5>>, co |-> <<0, 2, 4, 4>>]), C("bm", "setblock", [t |-> "d", A |-> "B", i |-> 0, j |-> 0, B |-> "A22", form |-> "copy"]),
            C("bo", "new", [z |-> "O1", form |-> "rc", ro |-> <<0, 2, 5>>, co |-> <<0, 2, 4, 4>>]), C("bo", "setblock", [A |-> "O1", i |-> 0, j |-> 0, B |-> "D22"]),
            C("coo", "new", [t |-> "d", z |-> "K", form |-> "rc", r |-> 2, c |-> 3]), C("lil", "new", [t |-> "d", z |-> "L", form |-> "rc", r |-> 3, c |-> 2])>>
BlkCalls ==
  FlatMap(Wrong, LAMBDA i : FlatMap({"mut", "const"}, LAMBDA f : <<M("bv", "block", [t |-> "d", x |-> "V", i |-> i, z |-> "w9", form |-> f])>>) \o <<M("bv", "read", [t |-> "d", x |-> "V", i |-> i])>>)
  \o FlatMap({<<0>>, <<0, 2>>, <<0, 1, 3>>, <<0, 4>>, <<0, 2, 5>>} \X {"v0", "v2", "v3", "v4"}, LAMBDA q : <<M("bv", "new", [t |-> "d", z |-> "z9", form |-> "data", off |-> q[1], x |-> q[2]])>>)
  \o FlatMap({-1, 0, 1, 2, 3} \X {-1, 0, 1, 2, 3, 400}, LAMBDA q : <<M("bm", "getblock", [t |-> "d", A |-> "B", i |-> q[1], j |-> q[2], z |-> "z9"]), M("bo", "getblock", [A |-> "O1", i |-> q[1], j |-> q[2]])>>
        \o FlatMap({"A22", "A32", "A20", "A23"} \X {"copy", "move"}, LAMBDA p : <<M("bm", "setblock", [t |-> "d", A |-> "B", i |-> q[1], j |-> q[2], B |-> p[1], form |-> p[2]])>>)
        \o FlatMap({"A22", "D32", "A20", "D23", "K", "L"}, LAMBDA p : <<M("bo", "setblock", [A |-> "O1", i |-> q[1], j |-> q[2], B |-> p])>>))
  \o FlatMap({"A23", "A02", "D32", "D20", "B", "O1", "K", "L"} \X {"v0", "v2", "v3", "v4", "w"}, LAMBDA q : FlatMap({0, 1} \X {"v0", "v2", "v3", "v4", "x5"}, LAMBDA p :
        When(p[2] # q[2], <<M("op", "apply", [A |-> q[1], x |-> q[2], tr |-> p[1], form |-> "view", z |-> p[2]]), M("op", "inner", [A |-> q[1], x |-> q[2], y |-> p[2]])>>))
        \o FlatMap({0, 1}, LAMBDA tr : <<M("op", "apply", [A |-> q[1], x |-> q[2], tr |-> tr, form |-> "ret", z |-> "z9"]), M("op", "apply", [A |-> q[1], x |-> q[2], tr |-> tr, form |-> "resize", z |-> "r9"])>>))

-----------------------------------------------------------------------------
NumSet == <<New("d", "P2", Csr(2, 2, [q \in Cells(2, 2) |-> IF q[1] = q[2] THEN 3 ELSE 1], "up")), New("d", "P3", Csr(3, 3, [q \in Cells(3, 3) |-> IF q[1] = q[2] THEN 3 ELSE 1], "up")),
            C("sd", "new", [A |-> "P2", z |-> "S2", form |-> "copy"]), C("eig", "new", [z |-> "E"]), C("eig", "newpair", [z |-> "EP"]),
            C("tm", "new", [z |-> "T0", form |-> "false"]), C("tm", "new", [z |-> "T2", form |-> "true"]), C("tm", "click", [x |-> "T2"]), C("tm", "click", [x |-> "T2"])>>
          \o Flat([k \in 1..3 |-> <<C("it", "new", [ty |-> <<"cg", "minres", "pminres">>[k], A |-> "P2", M |-> <<"", "", "P2">>[k], z |-> <<"Icg", "Imr", "Ipm">>[k], dot |-> 0, form |-> "full", verbose |-> 0, max |-> 400, rel |-> 14, abs |-> 12])>>])
          \o <<C("it", "new", [ty |-> "cg", A |-> "P2", M |-> "P2", z |-> "Ipc", dot |-> 0, form |-> "full", verbose |-> 0, max |-> 400, rel |-> 14, abs |-> 12])>>
Solvers == {"Icg", "Imr", "Ipm", "Ipc"}
Mats2 == {"P2", "P3", "A23", "A32", "D23", "D32", "A02"}
NumCalls ==
  FlatMap({"cg", "minres", "pminres"} \X Mats2, LAMBDA q : FlatMap(IF q[1] = "minres" THEN {""} ELSE IF q[1] = "cg" THEN {"", "P2", "P3", "A23", "D32"} ELSE {"P2", "P3", "A23", "D32"}, LAMBDA m :
       <<M("it", "new", [ty |-> q[1], A |-> q[2], M |-> m, z |-> "z9", dot |-> 0, form |-> "full", verbose |-> 0, max |-> 400, rel |-> 14, abs |-> 12])>>))
  \o FlatMap(Solvers \X Mats2, LAMBDA q : <<M("it", "set", [S |-> q[1], form |-> "A", A |-> q[2]])>> \o When(q[1] \in {"Icg", "Ipc"}, <<M("it", "set", [S |-> q[1], form |-> "M", M |-> q[2]])>>))
  \o FlatMap(Solvers \X ({"v0", "v2", "v3", "w"} \X {"v0", "z2", "v3", "v4"}), LAMBDA q : <<M("it", "solve", [S |-> q[1], b |-> q[2][1], x |-> q[2][2], trunc |-> 0])>>)
  \o FlatMap({"cg", "pcg", "minres", "pminres"} \X {"P2", "P3", "A23", "D32"}, LAMBDA q : FlatMap(IF q[1] \in {"cg", "minres"} THEN {"P2"} ELSE {"P2", "P3", "A23"}, LAMBDA m : FlatMap({"v2", "v3"} \X {"z2", "v3", "v4"}, LAMBDA p :
       <<M("it", "free", [ty |-> q[1], A |-> q[2], M |-> m, b |-> p[1], x |-> IF p[2] = p[1] THEN "u" ELSE p[2], z |-> "z9", form |-> "out", defaults |-> 0, trunc |-> 0, max |-> 300, rel |-> 14, abs |-> 12])>>)))
  \o FlatMap({"A02", "A20", "A23", "A32"}, LAMBDA A : <<M("sd", "new", [A |-> A, z |-> "z9", form |-> "copy"])>>)
  \o FlatMap({"v0", "v1", "v2", "v3", "w"} \X {"v0", "z2", "v3", "v4"}, LAMBDA q : FlatMap({0, 1}, LAMBDA tr : When(q[1] # q[2], <<M("sd", "solve", [S |-> "S2", b |-> q[1], tr |-> tr, form |-> "view", z |-> q[2]])>>)
        \o When(q[1] # "v4", <<M("sd", "solve", [S |-> "S2", b |-> q[1], tr |-> tr, form |-> "resize", z |-> "r9"]), M("sd", "solve", [S |-> "S2", b |-> q[1], tr |-> tr, form |-> "ret", z |-> "z9"])>>)))
  \o FlatMap({"A23", "A32", "D02", "D23", "D32"}, LAMBDA A : <<M("eig", "solve", [E |-> "E", A |-> A, rel |-> 8, max |-> -1, form |-> "out", z |-> "EP"])>>)
  \o FlatMap({"T0", "T2"} \X Wrong, LAMBDA q : <<M("tm", "read", [x |-> q[1], form |-> "i", i |-> q[2]])>>)

-----------------------------------------------------------------------------
O9 == <<DnNew("O", 1, 2, <<8, 9>>), VecOp("d", "r9", <<5>>), VecOp("d", "x5", Zeros(5)), VecOp("d", "z2", <<1, -1>>), ArrNew("ws", <<-1, -1, -1>>)>>
Programs ==
  CASE Group = "vec" -> Chunks(VecSet \o O9, VecCalls)
    [] Group = "sp" -> Chunks(VecSet \o SpSet \o DnSet \o O9, SpCalls)
    [] Group = "dn" -> Chunks(VecSet \o DnSet \o O9, DnCalls)
    [] Group = "rest" -> Chunks(VecSet \o DnSet \o O9 \o BuildSet("coo"), BuildCalls("coo")) \o Chunks(VecSet \o DnSet \o O9 \o BuildSet("lil"), BuildCalls("lil"))
                         \o Chunks(VecSet \o SpSet \o DnSet \o O9 \o BlkSet, BlkCalls) \o Chunks(VecSet \o SpSet \o DnSet \o O9 \o NumSet, NumCalls)
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
