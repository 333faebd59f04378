------------------------------ MODULE MC_dense ------------------------------
(* Dense matrices: every shape, range and index list of small matrices      *)
(* through every operation (C06, C08).                                      *)
EXTENDS SmallMats
CONSTANT Size

MaxDim == IF Size = 1 THEN 4 ELSE 5
Shapes == (0..MaxDim) \X (0..MaxDim)
D(z, r, c) == DnNew(z, r, c, DnVals(r, c))
E(z, r, c) == DnNew(z, r, c, [q \in 1..(r * c) |-> 100 + q])       \* the values written
Out == DnNew("D", 2, 1, <<77, 78>>)                               \* an output with something in it
X(op, a) == C("dn", op, a)
Ranges(n) == {<<i, j>> \in (0..n) \X (0..n) : i <= j}
SmallSeqs(n) == IF n <= 2 THEN Seqs(Idx0(n), 0, 2) ELSE {s \in Seqs(Idx0(n), 0, 2) : Len(s) < 2 \/ (s[1] + s[2]) % 2 = 1} \cup {[i \in 1..n |-> n - i]}

AccProg(r, c) ==
  <<D("A", r, c)>>
  \o FlatMap({"rows", "cols", "data"}, LAMBDA f : <<X("acc", [A |-> "A", form |-> f])>>)
  \o FlatMap({0, 1, r * c, r * c + 2}, LAMBDA n : <<X("acc", [A |-> "A", form |-> "copydata", n |-> n])>>)
  \o When(r * c > 0, FlatMap({"sum", "max", "min"}, LAMBDA f : <<X("acc", [A |-> "A", form |-> f])>>))
  \o When(r = c, FlatMap({"diag", "diag-out"}, LAMBDA f : <<X("acc", [A |-> "A", form |-> f])>>))
  \o FlatMap(Cells(r, c), LAMBDA q : <<X("acc", [A |-> "A", form |-> "at", i |-> q[1], j |-> q[2]]), X("acc", [A |-> "A", form |-> "cat", i |-> q[1], j |-> q[2]]),
                                       Copy("A", "B"), X("put", [A |-> "B", i |-> q[1], j |-> q[2], val |-> 55, form |-> "at"]),
                                       X("put", [A |-> "B", i |-> q[1], j |-> q[2], val |-> 56, form |-> "raw"])>>)
  \o FlatMap(Idx0(c), LAMBDA j : <<X("colview", [A |-> "A", j |-> j, z |-> "w", form |-> "mut"]), C("vec", "fill", [t |-> "d", x |-> "w", val |-> 9, form |-> "view"]), Del("w"),
                                   X("colview", [A |-> "A", j |-> j, z |-> "w", form |-> "const"]), C("vec", "list", [t |-> "d", x |-> "w", form |-> "const"]), Del("w"),
                                   VecOp("d", "y", Zeros(r)), X("getcol", [t |-> "d", A |-> "A", i |-> j, z |-> "y", form |-> "mut"])>>)
  \o FlatMap({0, 1, 2} \X {"sqv", "sq"}, LAMBDA q : <<Copy("A", "B"), X("setsize", IF q[2] = "sqv" THEN [A |-> "B", form |-> "sqv", r |-> q[1], val |-> 4] ELSE [A |-> "B", form |-> "sq", r |-> 0])>>)
  \o FlatMap({0, 1, 3} \X {0, 2}, LAMBDA q : <<Copy("A", "B"), X("setsize", [A |-> "B", form |-> "rcv", r |-> q[1], c |-> q[2], val |-> 4])>>)
  \o FlatMap({"mul", "div", "set"}, LAMBDA f : <<Copy("A", "B"), X("sca", [A |-> "B", form |-> f, val |-> IF f = "div" THEN -1 ELSE 3])>>)
  \o FlatMap({"rows", "cols", "irows", "icols"} \X {"std", "int", "vec", "view"}, LAMBDA q :
       LET n == IF q[1] \in {"rows", "irows"} THEN r ELSE c
       IN <<Copy("A", "B"), X("scale", [A |-> "B", form |-> q[1], u |-> q[2], x |-> [i \in 1..n |-> IF q[1] \in {"irows", "icols"} THEN (IF i % 2 = 0 THEN 1 ELSE -1) ELSE i - 2]])>>)
  \o FlatMap({0, 1}, LAMBDA tr : LET n == IF tr = 1 THEN r ELSE c IN
       <<VecOp("d", "x", TestVec(n)), VecOp("i", "xi", TestVec(n)), VecOp("d", "y", [i \in 1..(IF tr = 1 THEN c ELSE r) |-> 44]),
         X("mulv", [A |-> "A", u |-> "d", v |-> "d", tr |-> tr, x |-> "x", z |-> "z", form |-> "ret"]), X("mulv", [A |-> "A", u |-> "i", v |-> "d", tr |-> tr, x |-> "xi", z |-> "z", form |-> "tmpl"]),
         X("mulv", [A |-> "A", u |-> "d", v |-> "d", tr |-> tr, x |-> "x", z |-> "y", form |-> "view"])>>)
LineProg(r, c) ==
  <<D("A", r, c), VecOp("d", "xr", [i \in 1..c |-> 60 + i]), VecOp("i", "yc", [i \in 1..r |-> 80 + i]), VecOp("i", "zr", Zeros(c)), VecOp("d", "zc", Zeros(r))>>
  \o FlatMap(Idx0(r), LAMBDA i : <<X("getrow", [t |-> "d", A |-> "A", i |-> i, z |-> "v", form |-> "ret"]), X("getrow", [t |-> "i", A |-> "A", i |-> i, z |-> "zr", form |-> "view"]),
                                   Copy("A", "B"), X("setrow", [t |-> "d", A |-> "B", i |-> i, x |-> "xr"])>>)
  \o FlatMap(Idx0(c), LAMBDA j : <<X("getcol", [t |-> "i", A |-> "A", i |-> j, z |-> "v", form |-> "ret"]), X("getcol", [t |-> "d", A |-> "A", i |-> j, z |-> "zc", form |-> "view"]),
                                   Copy("A", "B"), X("setcol", [t |-> "i", A |-> "B", i |-> j, x |-> "yc"])>>)
GetProg(r, c) ==
  <<D("A", r, c)>>
  \o FlatMap(Ranges(r), LAMBDA q : <<X("get", [A |-> "A", i0 |-> q[1], i1 |-> q[2], z |-> "z", form |-> "rows"]), Out, X("get", [A |-> "A", i0 |-> q[1], i1 |-> q[2], z |-> "D", form |-> "rows-out"])>>)
  \o FlatMap(Ranges(c), LAMBDA q : <<X("get", [A |-> "A", j0 |-> q[1], j1 |-> q[2], z |-> "z", form |-> "cols"]), Out, X("get", [A |-> "A", j0 |-> q[1], j1 |-> q[2], z |-> "D", form |-> "cols-out"])>>)
  \o FlatMap(Ranges(r) \X Ranges(c), LAMBDA q : <<X("get", [A |-> "A", i0 |-> q[1][1], i1 |-> q[1][2], j0 |-> q[2][1], j1 |-> q[2][2], z |-> "z", form |-> "range"])>>)
  \o FlatMap({Ranges(r)} \X Ranges(c), LAMBDA q : <<Out, X("get", [A |-> "A", i0 |-> 0, i1 |-> r, j0 |-> q[2][1], j1 |-> q[2][2], z |-> "D", form |-> "range-out"])>>)
  \o FlatMap(SmallSeqs(r), LAMBDA s : <<X("get", [A |-> "A", rows |-> s, z |-> "z", form |-> "rowlist"]),
                                        DnNew("D", Len(s), c, Zeros(Len(s) * c)), X("get", [A |-> "A", rows |-> s, z |-> "D", form |-> "rowlist-out"])>>)
  \o FlatMap(SmallSeqs(r) \X SmallSeqs(c), LAMBDA q : <<X("get", [A |-> "A", rows |-> q[1], cols |-> q[2], z |-> "z", form |-> IF Len(q[1]) = 1 THEN "list-out" ELSE "list"])>>)
  \o <<X("transpose", [A |-> "A", z |-> "z", form |-> "plain"]), Out, X("transpose", [A |-> "A", z |-> "D", form |-> "plain-out"])>>
GetFix(cs) ==                          \* an output argument has to be there first
  Flat([i \in 1..Len(cs) |-> IF cs[i].op = "get" /\ cs[i].a.form = "list-out" THEN <<Out, [cs[i] EXCEPT !.a = [@ EXCEPT !.z = "D"]]>> ELSE <<cs[i]>>])
SetProg(r, c) ==
  <<D("A", r, c)>>
  \o FlatMap(Ranges(r) \X Ranges(c), LAMBDA q :
       LET i0 == q[1][1]
           i1 == q[1][2]
           j0 == q[2][1]
           j1 == q[2][2]
           a(f) == [A |-> "B", B |-> "S", i0 |-> i0, i1 |-> i1, j0 |-> j0, j1 |-> j1, form |-> f]
           t(f) == [A |-> "B", B |-> "T", i0 |-> i0, i1 |-> i1, j0 |-> j0, j1 |-> j1, form |-> f]
       IN <<E("S", i1 - i0, j1 - j0), E("T", j1 - j0, i1 - i0), Copy("A", "B"), X("set", a("sub")), Copy("A", "B"), X("set", a("sub5")), Copy("A", "B"), X("set", t("subt")), Copy("A", "B"), X("set", t("subt5"))>>
          \o When(j0 = 0 /\ j1 = c, <<Copy("A", "B"), X("set", a("rows"))>>)
          \o When(i0 = 0 /\ i1 = r, <<Copy("A", "B"), X("set", a("cols"))>>))
  \o FlatMap(SmallSeqs(r) \X SmallSeqs(c), LAMBDA q : <<E("S", Len(q[1]), Len(q[2])), Copy("A", "B"), X("set", [A |-> "B", B |-> "S", rows |-> q[1], cols |-> q[2], form |-> "add"])>>)
PairProg(r, k, c) ==
  <<D("A", r, k), D("B", k, c), D("At", k, r), D("Bt", c, k)>>
  \o FlatMap({<<"ab", "A", "B">>, <<"atb", "At", "B">>, <<"abt", "A", "Bt">>, <<"atbt", "At", "Bt">>}, LAMBDA q :
       <<X("mul", [A |-> q[2], B |-> q[3], z |-> "z", form |-> q[1]]), Out, X("mul", [A |-> q[2], B |-> q[3], z |-> "D", form |-> q[1] \o "-out"])>>)
SumProg(r, c) ==
  <<D("A", r, c), E("B", r, c)>>
  \o FlatMap({"add", "sub"}, LAMBDA f : <<X("expr", [A |-> "A", B |-> "B", z |-> "z", form |-> f]), X("expr", [A |-> "B", B |-> "A", z |-> "z", form |-> f]),
                                          Copy("A", "z"), X("iarith", [A |-> "z", B |-> "B", form |-> f]), X("iarith", [A |-> "z", B |-> "z", form |-> f])>>)
  \o FlatMap({"xv", "vx", "xd"}, LAMBDA f : <<X("expr", [A |-> "A", z |-> "z", form |-> f, val |-> IF f = "xd" THEN -1 ELSE 2])>>)
  \o <<Copy("A", "z"), X("eq", [A |-> "A", B |-> "z"]), X("eq", [A |-> "A", B |-> "B"]), D("T", c, r), X("eq", [A |-> "A", B |-> "T"]), X("eq", [A |-> "T", B |-> "A"])>>
  \o FlatMap(Cells(r, c), LAMBDA q : <<Copy("A", "z"), X("put", [A |-> "z", i |-> q[1], j |-> q[2], val |-> 999, form |-> "at"]), X("eq", [A |-> "z", B |-> "A"])>>)
  \o FlatMap({<<"A">>, <<"A", "B">>, <<"B", "A", "A">>, <<"A", "S">>, <<"S", "A", "S">>}, LAMBDA l :
       <<E("S", r, 1), X("hstack", [list |-> l, z |-> "z", form |-> "plain"]), Out, X("hstack", [list |-> l, z |-> "D", form |-> "plain-out"])>>)
News == <<<<X("new", [z |-> "A", form |-> "default"])>>>>
        \o FlatMap(0..3, LAMBDA n : <<<<X("new", [z |-> "A", form |-> "size", r |-> n])>>>>)
        \o FlatMap(Shapes, LAMBDA s : <<<<X("new", [z |-> "A", form |-> "rc", r |-> s[1], c |-> s[2]])>>>>)
Programs == News \o Map(Shapes, LAMBDA s : AccProg(s[1], s[2])) \o Map(Shapes, LAMBDA s : LineProg(s[1], s[2])) \o Map(Shapes, LAMBDA s : GetFix(GetProg(s[1], s[2])))
            \o Map(Shapes, LAMBDA s : SetProg(s[1], s[2])) \o Map({s \in (0..MaxDim) \X (0..MaxDim) \X (0..MaxDim) : TRUE}, LAMBDA s : PairProg(s[1], s[2], s[3]))
            \o Map(Shapes, LAMBDA s : SumProg(s[1], s[2]))

Law == (IsK(heap, "A", {"dn"}) /\ pc = 2) =>
         LET m == heap["A"] IN
         /\ DTrans(DTrans(m)) = m
         /\ RowsOfDn(DTrans(m)) = TransRows(RowsOfDn(m), m.r, m.c)
         /\ DnOfRows(m.r, m.c, RowsOfDn(m)) = m
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
