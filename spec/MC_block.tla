------------------------------ MODULE MC_block ------------------------------
(* Every small block layout, every set of blocks given (C11): block         *)
(* matrices, block operators over blocks of every kind and over block       *)
(* operators, block vectors.                                                *)
EXTENDS SmallMats
CONSTANTS MaxBlocks, Widths

Layouts == {FoldLeft(LAMBDA o, w : Append(o, o[Len(o)] + w), <<0>>, s) : s \in Seqs(Widths, 0, MaxBlocks)}
SubsetsOf(ro, co) == SUBSET ((0..(NB(ro) - 1)) \X (0..(NB(co) - 1)))

(* a block of the given shape: not every cell is an entry, and the shapes with at least two cells have an explicit zero *)
Blk(r, c, i, j) ==
  Csr(r, c, [q \in Cells(r, c) |-> IF (q[1] + q[2] + i) % 3 = 2 THEN ABSENT ELSE IF q[1] = 1 /\ q[2] = 0 /\ j = 0 THEN 0 ELSE CellVal(q[1], q[2]) + 2 * i - 3 * j],
      IF (i + j) % 2 = 0 THEN "up" ELSE "down")
Applied(z, r, c) ==
  <<C("op", "size", [A |-> z]), VecOp("d", "x", TestVec(c)), VecOp("d", "y", [i \in 1..r |-> 90 + i]), C("op", "apply", [A |-> z, x |-> "x", tr |-> 0, form |-> "view", z |-> "y"]),
    C("op", "apply", [A |-> z, x |-> "x", tr |-> 0, form |-> "ret", z |-> "u"]),
    VecOp("d", "x", TestVec(r)), VecOp("d", "y", [i \in 1..c |-> 90 + i]), C("op", "apply", [A |-> z, x |-> "x", tr |-> 1, form |-> "view", z |-> "y"]),
    C("op", "apply", [A |-> z, x |-> "x", tr |-> 1, form |-> "ret", z |-> "u"])>>
Accs(m, A) == [i \in 1..4 |-> C(m, "acc", A @@ [form |-> <<"rows", "cols", "ro", "co">>[i]])]
Gets(t, z, ro, co) == FlatMap((0..(NB(ro) - 1)) \X (0..(NB(co) - 1)), LAMBDA q : <<C("bm", "getblock", [t |-> t, A |-> z, i |-> q[1], j |-> q[2], z |-> "g"])>>)
SetBm(t, z, ro, co, S, f) ==
  FlatMap(S, LAMBDA q : <<New(t, "S", Blk(Width(ro, q[1]), Width(co, q[2]), q[1], q[2])), C("bm", "setblock", [t |-> t, A |-> z, i |-> q[1], j |-> q[2], B |-> "S", form |-> f])>>)

BmProg(t, ro, co, S) ==
  <<C("bm", "new", [t |-> t, z |-> "B", form |-> "rc", ro |-> ro, co |-> co])>>
  \o SetBm(t, "B", ro, co, S, IF Cardinality(S) % 2 = 0 THEN "copy" ELSE "move")
  \o Accs("bm", [t |-> t, A |-> "B"]) \o Gets(t, "B", ro, co)
  \o <<C("bm", "transpose", [t |-> t, A |-> "B", z |-> "T"]), C("bm", "combine", [t |-> t, A |-> "B", z |-> "Z"]), C("bm", "combine", [t |-> t, A |-> "T", z |-> "W"]),
       C("bm", "transpose", [t |-> t, A |-> "T", z |-> "V"])>>
  \o Accs("bm", [t |-> t, A |-> "T"]) \o Gets(t, "T", co, ro)
  \o When(t = "d", Applied("B", LastOf(ro), LastOf(co)) \o Applied("T", LastOf(co), LastOf(ro)))
  \* a block is replaced; the transpose and the combined matrix made before keep what they had
  \o FlatMap(S, LAMBDA q : <<New(t, "S", Csr(Width(ro, q[1]), Width(co, q[2]), [p \in Cells(Width(ro, q[1]), Width(co, q[2])) |-> 7], "up")), Copy("B", "K"),
                             C("bm", "setblock", [t |-> t, A |-> "K", i |-> q[1], j |-> q[2], B |-> "S", form |-> "copy"]), C("bm", "combine", [t |-> t, A |-> "K", z |-> "Y"])>>)
  \o When(ro = co, <<C("bm", "new", [t |-> t, z |-> "Q", form |-> "sq", ro |-> ro]), C("bm", "combine", [t |-> t, A |-> "Q", z |-> "Y"])>> \o Accs("bm", [t |-> t, A |-> "Q"]))

(* block operators: the kind of the block at (i, j) follows from its place; the operator is applied before, between and after its blocks change *)
Name(q) == <<<<"b00", "b01", "b02">>, <<"b10", "b11", "b12">>, <<"b20", "b21", "b22">>>>[q[1] + 1][q[2] + 1]
BlkObj(q, r, c, k) ==
  LET m == Blk(r, c, q[1], q[2])
      z == Name(q)
  IN CASE k = 0 -> <<New("d", z, m)>>
       [] k = 1 -> <<DnNew(z, r, c, [p \in 1..(r * c) |-> p - 2 + q[1]])>>
       [] k = 2 -> <<C("coo", "new", [t |-> "d", z |-> z, form |-> "rc", r |-> r, c |-> c])>>
                   \o FlatMap(Cells(r, c), LAMBDA p : <<C("coo", "add", [t |-> "d", A |-> z, form |-> "one", i |-> p[1], j |-> p[2], val |-> p[1] - 2 * p[2] + 1])>>)
       [] k = 3 -> <<C("bo", "new", [z |-> z, form |-> "rc", ro |-> <<0, r>>, co |-> <<0, c>>]), DnNew(z \o "n", r, c, [p \in 1..(r * c) |-> 3 - p]),
                     C("bo", "setblock", [A |-> z, i |-> 0, j |-> 0, B |-> z \o "n"])>>
       [] OTHER -> <<C("bm", "new", [t |-> "d", z |-> z, form |-> "rc", ro |-> <<0, r>>, co |-> <<0, c>>]), New("d", "S", m),
                     C("bm", "setblock", [t |-> "d", A |-> z, i |-> 0, j |-> 0, B |-> "S", form |-> "copy"])>>
BoProg(ro, co, S, k0) ==
  <<C("bo", "new", [z |-> "O", form |-> "rc", ro |-> ro, co |-> co])>>
  \o FlatMap(S, LAMBDA q : BlkObj(q, Width(ro, q[1]), Width(co, q[2]), (k0 + q[1] + 2 * q[2]) % 5))
  \o Applied("O", LastOf(ro), LastOf(co))
  \o FlatMap(S, LAMBDA q : <<C("bo", "setblock", [A |-> "O", i |-> q[1], j |-> q[2], B |-> Name(q)])>>)
  \o Accs("bo", [A |-> "O"])
  \o FlatMap((0..(NB(ro) - 1)) \X (0..(NB(co) - 1)), LAMBDA q : <<C("bo", "getblock", [A |-> "O", i |-> q[1], j |-> q[2]])>>)
  \o Applied("O", LastOf(ro), LastOf(co))
  \* a second operator on the same blocks, by copying; a block's values change behind both
  \o <<Copy("O", "P")>>
  \o FlatMap({q \in S : (k0 + q[1] + 2 * q[2]) % 5 = 0 /\ Width(ro, q[1]) > 0}, LAMBDA q : <<C("sp", "sca", [t |-> "d", u |-> "d", A |-> Name(q), form |-> "mul", val |-> -2])>>)
  \o Applied("O", LastOf(ro), LastOf(co)) \o Applied("P", LastOf(ro), LastOf(co))
  \o When(ro = co, <<C("bo", "new", [z |-> "Q", form |-> "sq", ro |-> ro])>> \o Accs("bo", [A |-> "Q"]) \o Applied("Q", LastOf(ro), LastOf(co)))

(* block vectors: every block read, changed through its view, the vector changed behind its views *)
BvProg(t, off) ==
  LET n == LastOf(off)
  IN <<VecOp(t, "x", TestVec(n)), C("bv", "new", [t |-> t, z |-> "V", form |-> "data", off |-> off, x |-> "x"]), C("bv", "offsets", [t |-> t, x |-> "V"]),
       C("bv", "new", [t |-> t, z |-> "U", form |-> "off", off |-> off]), C("bv", "new", [t |-> t, z |-> "W", form |-> "val", off |-> off, val |-> 4])>>
     \o FlatMap(0..(NB(off) - 1), LAMBDA i : <<C("bv", "read", [t |-> t, x |-> "V", i |-> i]), C("bv", "block", [t |-> t, x |-> "V", i |-> i, z |-> "b", form |-> "mut"]),
                                               C("bv", "block", [t |-> t, x |-> "V", i |-> i, z |-> "c", form |-> "const"]), C("vec", "fill", [t |-> t, x |-> "b", val |-> 40 + i, form |-> "view"]),
                                               C("bv", "read", [t |-> t, x |-> "V", i |-> i])>>)
     \o When(n > 0, FlatMap(Idx0(n), LAMBDA i : <<C("vec", "put", [t |-> t, x |-> "V", i |-> i, val |-> 9, form |-> "at"])>>)
                    \o FlatMap(0..(NB(off) - 1), LAMBDA i : <<C("bv", "read", [t |-> t, x |-> "V", i |-> i])>>))
     \o <<Copy("V", "K"), C("bv", "set", [t |-> t, x |-> "V", val |-> 2]), C("bv", "setview", [t |-> t, x |-> "U", y |-> "x"]), C("bv", "offsets", [t |-> t, x |-> "K"])>>
     \o FlatMap(0..(NB(off) - 1), LAMBDA i : <<C("bv", "read", [t |-> t, x |-> "K", i |-> i]), C("bv", "read", [t |-> t, x |-> "U", i |-> i])>>)

Programs ==
  Map(Layouts \X {"d", "i"}, LAMBDA q : BvProg(q[2], q[1]))
  \o FlatMap(Layouts \X Layouts, LAMBDA q : Map(SubsetsOf(q[1], q[2]), LAMBDA S : BmProg(IF (LastOf(q[1]) + Cardinality(S)) % 4 = 3 THEN "i" ELSE "d", q[1], q[2], S)))
  \o FlatMap(Layouts \X Layouts, LAMBDA q : Map(SubsetsOf(q[1], q[2]), LAMBDA S : BoProg(q[1], q[2], S, LastOf(q[1]) + 2 * LastOf(q[2]))))

(* laws: combining gives the same operator; transposing twice gives it back; combining and transposing commute *)
Law ==
  {"B", "T", "Z", "W", "V"} \subseteq DOMAIN heap =>
     /\ OpRows(heap, "B") = RowsOfSp(heap["Z"])
     /\ OpRows(heap, "T") = RowsOfSp(heap["W"])
     /\ SameSp(heap["W"], SpTrans(heap["Z"], heap["Z"].t))
     /\ OpRows(heap, "V") = OpRows(heap, "B")
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
