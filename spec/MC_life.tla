------------------------------- MODULE MC_life -------------------------------
(* Lifetime (C10): two objects of a kind, every sequence of copies, moves,  *)
(* assignments, swaps, destructions and edits of the two and a third, then  *)
(* everything that is left is edited, used and destroyed.                   *)
EXTENDS SmallMats
CONSTANTS Kinds, Depth

S2 == {"a", "b", "c"}
SpA == Csr(2, 3, [q \in Cells(2, 3) |-> IF q \in {<<0, 1>>, <<1, 2>>} THEN ABSENT ELSE CellVal(q[1], q[2])], "down")
SpB == Csr(3, 2, [q \in Cells(3, 2) |-> IF q = <<1, 1>> THEN 0 ELSE IF q[1] = 2 THEN ABSENT ELSE CellVal(q[1], q[2]) + 4], "up")
Fill(k, z, q) == FlatMap(q, LAMBDA p : <<C(k, "add", [t |-> "d", A |-> z, form |-> "one", i |-> p[1], j |-> p[2], val |-> p[1] - 2 * p[2] + 1])>>)
Spd(z, u) == New("d", z, Csr(2, 2, [q \in Cells(2, 2) |-> IF q[1] = q[2] THEN 3 + u ELSE 1], "down"))
Blk1(v) == New("d", "S", Csr(1, 2, [q \in Cells(1, 2) |-> v + q[2]], "up"))
Ty(K) == CASE K = "cg" -> "cg" [] K = "pcg" -> "cg" [] K = "minres" -> "minres" [] OTHER -> "pminres"
ItKinds == {"cg", "pcg", "minres", "pminres"}
Setup(K) ==
  CASE K = "vecd" -> <<VecOp("d", "a", <<1, 2>>), VecOp("d", "b", <<3>>)>>
    [] K = "veci" -> <<VecOp("i", "a", <<1, 2>>), VecOp("i", "b", <<3>>)>>
    [] K = "arr" -> <<ArrNew("a", <<1, 2>>), ArrNew("b", <<3>>)>>
    [] K = "spd" -> <<New("d", "a", SpA), New("d", "b", SpB)>>
    [] K = "spi" -> <<New("i", "a", SpA), New("i", "b", SpB)>>
    [] K = "dn" -> <<DnNew("a", 2, 3, DnVals(2, 3)), DnNew("b", 1, 2, <<8, 9>>)>>
    [] K \in {"coo", "lil"} -> <<C(K, "new", [t |-> "d", z |-> "a", form |-> "rc", r |-> 2, c |-> 3])>> \o Fill(K, "a", {<<0, 2>>, <<1, 0>>})
                               \o <<C(K, "new", [t |-> "d", z |-> "b", form |-> "auto", r |-> 0, c |-> 0])>> \o Fill(K, "b", {<<2, 1>>})
    [] K = "bvec" -> <<VecOp("d", "x", <<4, 5, 6>>), C("bv", "new", [t |-> "d", z |-> "a", form |-> "data", off |-> <<0, 2, 3>>, x |-> "x"]), C("bv", "new", [t |-> "d", z |-> "b", form |-> "val", off |-> <<0, 1>>, val |-> 7])>>
    [] K = "bm" -> <<C("bm", "new", [t |-> "d", z |-> "a", form |-> "rc", ro |-> <<0, 1, 3>>, co |-> <<0, 2>>]), Blk1(3), C("bm", "setblock", [t |-> "d", A |-> "a", i |-> 0, j |-> 0, B |-> "S", form |-> "copy"]),
                     New("d", "S", Csr(2, 2, [q \in Cells(2, 2) |-> 5], "up")), C("bm", "setblock", [t |-> "d", A |-> "a", i |-> 1, j |-> 0, B |-> "S", form |-> "move"]),
                     C("bm", "new", [t |-> "d", z |-> "b", form |-> "rc", ro |-> <<0, 1>>, co |-> <<0, 2, 4>>]), Blk1(-6), C("bm", "setblock", [t |-> "d", A |-> "b", i |-> 0, j |-> 1, B |-> "S", form |-> "copy"])>>
    [] K = "bo" -> <<DnNew("D", 1, 2, <<3, 4>>), New("d", "E", Csr(2, 2, [q \in Cells(2, 2) |-> 5], "up")), C("bo", "new", [z |-> "a", form |-> "rc", ro |-> <<0, 1, 3>>, co |-> <<0, 2>>]),
                     C("bo", "setblock", [A |-> "a", i |-> 0, j |-> 0, B |-> "D"]), C("bo", "setblock", [A |-> "a", i |-> 1, j |-> 0, B |-> "E"]),
                     C("bo", "new", [z |-> "b", form |-> "rc", ro |-> <<0, 1>>, co |-> <<0, 2>>])>>
    [] K = "sd" -> <<Spd("A", 0), C("sd", "new", [A |-> "A", z |-> "a", form |-> "copy"]), New("d", "B", Csr(2, 2, [q \in Cells(2, 2) |-> IF q = <<0, 0>> THEN ABSENT ELSE 2 + q[1]], "up")),
                     C("sd", "new", [A |-> "B", z |-> "b", form |-> "move"])>>
    [] K = "eig" -> <<C("eig", "new", [z |-> "a"]), C("eig", "new", [z |-> "b"]), Spd("A", 0), DnNew("D", 3, 3, <<1, 1, 0, 1, 0, 0, 0, 0, 2>>),
                      Skip("eig", "solve", [E |-> "a", A |-> "D", rel |-> 8, max |-> -1, form |-> "ret", z |-> "P"])>>
    [] K = "pair" -> <<C("eig", "new", [z |-> "E"]), C("eig", "newpair", [z |-> "a"]), C("eig", "newpair", [z |-> "b"]), Spd("A", 0), DnNew("D", 3, 3, <<1, 1, 0, 1, 0, 0, 0, 0, 2>>),
                      Skip("eig", "solve", [E |-> "E", A |-> "D", rel |-> 8, max |-> -1, form |-> "out", z |-> "a"]), Skip("eig", "solve", [E |-> "E", A |-> "A", rel |-> 8, max |-> -1, form |-> "out", z |-> "b"])>>
    [] OTHER -> LET nw(z, A, M) == C("it", "new", [ty |-> Ty(K), A |-> A, M |-> M, z |-> z, dot |-> 0, form |-> "full", verbose |-> 0, max |-> 400, rel |-> 14, abs |-> 12])
                IN <<Spd("A", 0), Spd("B", 2), Spd("M", 1), VecOp("d", "r", <<24, -48>>)>> \o (IF K \in {"pcg", "pminres"} THEN <<nw("a", "A", "M"), nw("b", "B", "A")>> ELSE <<nw("a", "A", ""), nw("b", "B", "")>>)
(* an edit that fits whatever z holds *)
Edit(K, z, n) ==
  CASE K \in {"vecd", "veci"} -> LET t == IF K = "vecd" THEN "d" ELSE "i" IN
         IF n % 2 = 0 THEN <<C("vec", "put", [t |-> t, x |-> z, i |-> 0, val |-> 20 + n, form |-> "idx"])>> ELSE <<C("vec", "setsize", [t |-> t, x |-> z, n |-> 3, val |-> 30 + n])>>
    [] K = "arr" -> <<C("vec", "arrset", [t |-> "i", x |-> z, i |-> 0, val |-> 20 + n])>>
    [] K \in {"spd", "spi"} -> LET t == IF K = "spd" THEN "d" ELSE "i" IN
         IF n % 2 = 0 THEN <<C("sp", "setdata", [t |-> t, A |-> z, i |-> 0, val |-> 20 + n]), C("sp", "transpose", [t |-> t, u |-> t, A |-> z, z |-> "T"])>> ELSE <<C("sp", "sort", [t |-> t, A |-> z]), C("sp", "sca", [t |-> t, u |-> t, A |-> z, form |-> "mul", val |-> -2])>>
    [] K = "dn" -> IF n % 2 = 0 THEN <<C("dn", "put", [A |-> z, i |-> 0, j |-> 0, val |-> 20 + n, form |-> IF n % 4 = 0 THEN "raw" ELSE "op"])>> ELSE <<C("dn", "sca", [A |-> z, form |-> "mul", val |-> -2]), C("dn", "transpose", [A |-> z, z |-> "T", form |-> "ret"])>>
    [] K \in {"coo", "lil"} -> <<C(K, "add", [t |-> "d", A |-> z, form |-> "one", i |-> 0, j |-> n % 2, val |-> 20 + n]), C(K, "tosparse", [t |-> "d", A |-> z, z |-> "T", u |-> ""])>>
    [] K = "bvec" -> IF n % 2 = 0 THEN <<C("vec", "put", [t |-> "d", x |-> z, i |-> 0, val |-> 20 + n, form |-> "idx"]), C("bv", "read", [t |-> "d", x |-> z, i |-> 0])>> ELSE <<C("bv", "set", [t |-> "d", x |-> z, val |-> 30 + n]), C("bv", "offsets", [t |-> "d", x |-> z])>>
    [] K = "bm" -> <<Blk1(20 + n), C("bm", "setblock", [t |-> "d", A |-> z, i |-> 0, j |-> 0, B |-> "S", form |-> IF n % 2 = 0 THEN "move" ELSE "copy"]), C("bm", "combine", [t |-> "d", A |-> z, z |-> "T"]), C("bm", "transpose", [t |-> "d", A |-> z, z |-> "U"])>>
    [] K = "bo" -> <<C("bo", "setblock", [A |-> z, i |-> 0, j |-> 0, B |-> "D"]), VecOp("d", "x", <<2, n>>), C("op", "apply", [A |-> z, x |-> "x", tr |-> 0, form |-> "ret", z |-> "u"])>>
    [] K = "sd" -> <<VecOp("d", "r", <<24, -48>>), Skip("sd", "solve", [S |-> z, b |-> "r", tr |-> n % 2, form |-> "ret", z |-> "u"])>>
    [] K = "eig" -> <<Skip("eig", "solve", [E |-> z, A |-> IF n % 2 = 0 THEN "A" ELSE "D", rel |-> 8, max |-> -1, form |-> "ret", z |-> "P"])>>
    [] K = "pair" -> <<Skip("eig", "solve", [E |-> "E", A |-> IF n % 2 = 0 THEN "A" ELSE "D", rel |-> 8, max |-> -1, form |-> "out", z |-> z])>>
    [] OTHER -> <<C("it", "set", [S |-> z, form |-> "max", max |-> 300 + n]), VecOp("d", "x", <<n, -5>>), Skip("it", "solve", [S |-> z, b |-> "r", x |-> "x", trunc |-> 0])>>

(* what lifetime calls a kind has *)
NoAssign(K) == K = "bo"
NoSwap(K) == K \in {"none"}
L(op, x, y) == [op |-> op, x |-> x, y |-> y]
Next1(K, st) ==
  LET live == {x \in S2 : st[x] = "L"}
      there == {x \in S2 : st[x] # "N"}
  IN {L("copy", x, "c") : x \in IF st["c"] = "N" THEN live ELSE {}} \cup {L("move", x, "c") : x \in IF st["c"] = "N" THEN live ELSE {}}
     \cup (IF NoAssign(K) THEN {} ELSE {L("assign", x, y) : x \in there, y \in live} \cup {L("massign", q[1], q[2]) : q \in {q \in there \X live : q[1] # q[2]}})
     \cup (IF NoSwap(K) THEN {} ELSE {L("swap", q[1], q[2]) : q \in {q \in live \X there : q[1] # q[2] /\ (q[2] \in live => q = <<"a", "b">> \/ q = <<"b", "c">> \/ q = <<"c", "a">>)}})
     \cup {L("del", x, x) : x \in there} \cup {L("edit", x, x) : x \in live}
     \* a slot that was emptied is filled again from what is there
     \cup {L("copy", x, z) : x \in live, z \in {z \in {"a", "b"} : st[z] = "N"}}
After(st, q) ==
  CASE q.op = "copy" -> [st EXCEPT ![q.y] = "L"]
    [] q.op = "move" -> [st EXCEPT ![q.y] = "L", ![q.x] = "M"]
    [] q.op = "assign" -> [st EXCEPT ![q.x] = "L"]
    [] q.op = "massign" -> [st EXCEPT ![q.x] = "L", ![q.y] = "M"]
    [] q.op = "swap" -> [st EXCEPT ![q.x] = st[q.y], ![q.y] = st[q.x]]
    [] q.op = "del" -> [st EXCEPT ![q.x] = "N"]
    [] OTHER -> st
RECURSIVE Hist(_, _, _)
Hist(K, st, n) == IF n = 0 THEN {[s |-> <<>>, e |-> st]} ELSE UNION {LET g == After(st, q) IN {[s |-> <<q>> \o r.s, e |-> r.e] : r \in Hist(K, g, n - 1)} : q \in Next1(K, st)}
Start == [x \in S2 |-> IF x = "c" THEN "N" ELSE "L"]
Made(K, q, n) ==
  CASE q.op \in {"copy", "move"} -> <<C("life", q.op, [x |-> q.x, z |-> q.y])>>
    [] q.op \in {"assign", "massign", "swap"} -> <<C("life", q.op, [x |-> q.x, y |-> q.y])>>
    [] q.op = "del" -> <<Del(q.x)>>
    [] OTHER -> Edit(K, q.x, n)
Prog(K, hs) ==
  LET hi == hs.s
      left == hs.e
      order == IF Len(hi) % 2 = 0 THEN <<"a", "b", "c">> ELSE <<"c", "b", "a">>
  IN Setup(K) \o Flat([i \in 1..Len(hi) |-> Made(K, hi[i], i)])
     \o Flat([i \in 1..3 |-> IF left[order[i]] = "L" THEN Edit(K, order[i], 10 + 3 * i) \o (IF i < 3 THEN <<Del(order[i])>> ELSE Edit(K, order[i], 30)) ELSE <<>>])
Programs == FlatMap(Kinds, LAMBDA K : Map(Hist(K, Start, Depth), LAMBDA s : Prog(K, s)))
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
