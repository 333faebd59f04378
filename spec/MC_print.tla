------------------------------ MODULE MC_print ------------------------------
(* Printing (C21): every printable object of small shapes, with every       *)
(* label, destination and precision; and the contract of the printed text   *)
(* accepts what a faithful printer shows and nothing of another object.     *)
EXTENDS SmallMats
CONSTANTS Vals, Len_, MaxR, MaxC

Labels == {"", "A b", "x: (1, 2) 3"}
Tos == {"ss", "cout", "default"}
Precs == {0, 12}
Ways == (Labels \X Tos) \X Precs
Few == {<<<<"", "default">>, 0>>, <<<<"A b", "ss">>, 0>>, <<<<"x: (1, 2) 3", "cout">>, 12>>}
P(op, t, x, w) == C("print", op, [x |-> x, t |-> t, label |-> w[1][1], to |-> w[1][2], prec |-> w[2]])
All(op, t, x, W) == Map(W, LAMBDA w : P(op, t, x, w))
Grid(x, W, F_) == FlatMap(W \X F_, LAMBDA q : LET w == q[1] IN <<C("print", "dense", [t |-> "d", x |-> x, label |-> w[1][1], to |-> w[1][2], prec |-> w[2]] @@ q[2])>>)
Fmts == {[w |-> 6, p |-> 0], [w |-> 9, p |-> 3], [w |-> 14]}

Vecs == Seqs(Vals \cup {-3}, 0, Len_)
VecProgs == FlatMap({"d", "i"} \X Vecs, LAMBDA q : LET t == q[1] IN
  <<<<VecOp(t, "x", q[2])>> \o All("vec", t, "x", Few) \o All("stream", t, "x", Few)
    \o When(Len(q[2]) > 0, <<C("vec", "viewptr", [t |-> t, z |-> "w", x |-> "x", off |-> 1, n |-> Len(q[2]) - 1])>> \o All("vec", t, "w", Few) \o All("stream", t, "w", Few))
    \o When(t = "i", <<ArrNew("a", q[2])>> \o All("stream", "i", "a", Few))
    \o When(t = "d", <<C("bv", "new", [t |-> "d", z |-> "b", form |-> "data", off |-> <<0, Len(q[2])>>, x |-> "x"])>> \o All("vec", "d", "b", Few))>>)
WayProgs == <<<<VecOp("d", "x", <<1, -2, 30>>), New("d", "A", Csr(2, 3, [q \in Cells(2, 3) |-> CellVal(q[1], q[2])], "down")), DnNew("D", 2, 3, DnVals(2, 3))>>
              \o All("vec", "d", "x", Ways) \o All("stream", "d", "x", Ways) \o All("list", "d", "A", Ways) \o All("dense", "d", "A", Ways) \o All("dense", "d", "D", Ways) \o Grid("D", Ways, Fmts)>>
SpFam(r, c) == IF r * c <= 4 THEN BothOrders(r, c) \cup FullMats(r, c, "down") ELSE {m \in PatMats(r, c, "down") : Len(m.j) \in {0, 1, r * c - 1, r * c}}
SpProgs == FlatMap((0..MaxR) \X (0..MaxC), LAMBDA s : FlatMap(SpFam(s[1], s[2]), LAMBDA m :
  <<FlatMap({"d", "i"}, LAMBDA t : <<New(t, IF t = "d" THEN "A" ELSE "I", m)>> \o All("list", t, IF t = "d" THEN "A" ELSE "I", Few) \o All("dense", t, IF t = "d" THEN "A" ELSE "I", Few))
    \o <<C("sp", "sort", [t |-> "d", A |-> "A"])>> \o All("list", "d", "A", Few)>>))
DnProgs == FlatMap((0..MaxR) \X (0..MaxC), LAMBDA s : FlatMap({DnVals(s[1], s[2]), [q \in 1..(s[1] * s[2]) |-> IF q % 2 = 0 THEN 0 ELSE 0 - 12 * q]}, LAMBDA v :
  <<<<DnNew("D", s[1], s[2], v)>> \o All("dense", "d", "D", Few) \o Grid("D", Few, Fmts)>>))
Trip == ((0..1) \X (0..2)) \X {-3, 0, 4}
BuildProgs == FlatMap({"coo", "lil"} \X {"rc", "auto"}, LAMBDA k : FlatMap(Seqs(Trip, 0, 2), LAMBDA s :
  <<<<C(k[1], "new", [t |-> "d", z |-> "K", form |-> k[2], r |-> IF k[2] = "rc" THEN 2 ELSE 0, c |-> IF k[2] = "rc" THEN 3 ELSE 0])>>
    \o Flat([q \in 1..Len(s) |-> <<C(k[1], "add", [t |-> "d", A |-> "K", form |-> "one", i |-> s[q][1][1], j |-> s[q][1][2], val |-> s[q][2]])>>])
    \o All("list", "d", "K", Few) \o When(k[2] = "rc", <<C(k[1], "elimzeros", [t |-> "d", A |-> "K", form |-> "dflt"])>> \o All("list", "d", "K", Few))>>))
BlkProgs == FlatMap({<<0, 1>>, <<0, 1, 3>>, <<0, 0, 2>>} \X {<<0, 2>>, <<0, 2, 3>>}, LAMBDA o : FlatMap(SUBSET {<<i, j>> \in (0..1) \X (0..1) : i < Len(o[1]) - 1 /\ j < Len(o[2]) - 1}, LAMBDA S :
  <<<<C("bm", "new", [t |-> "d", z |-> "B", form |-> "rc", ro |-> o[1], co |-> o[2]])>>
    \o FlatMap(S, LAMBDA q : LET r == o[1][q[1] + 2] - o[1][q[1] + 1] c == o[2][q[2] + 2] - o[2][q[2] + 1] IN
         <<New("d", "S", Csr(r, c, [p \in Cells(r, c) |-> IF p = <<0, 1>> THEN 0 ELSE CellVal(p[1] + q[1], p[2] + 2 * q[2])], "down")), C("bm", "setblock", [t |-> "d", A |-> "B", i |-> q[1], j |-> q[2], B |-> "S", form |-> "copy"])>>)
    \o All("blocks", "d", "B", Few) \o All("dense", "d", "B", Few)>>))
Programs == WayProgs \o VecProgs \o SpProgs \o DnProgs \o BuildProgs \o BlkProgs

(* the printed text tells objects apart *)
Shown(o, op, o2) == LET h == [x |-> o] h2 == [x |-> o2] a == [x |-> "x", t |-> o.t, label |-> "L", prec |-> 0]
                    IN PrintEff(h, op, a, [r |-> Rendered(h2, op, a)]).ok
LawVec == \A v, w \in Vecs : Shown(Vec("d", v), "vec", Vec("d", w)) <=> v = w
LawSp == LET S == {[k |-> "sp", t |-> "d", r |-> 2, c |-> 2, p |-> m.p, j |-> m.j, x |-> m.x] : m \in FullMats(2, 2, "up") \cup PatMats(2, 2, "down")}
         IN \A m, n \in S : /\ Shown(m, "list", n) <=> SameSp(m, n)
                            /\ Shown(m, "dense", n) <=> RowsOfSp(m) = RowsOfSp(n)
Law == pc = 1 /\ prog = 1 => LawVec /\ LawSp
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
