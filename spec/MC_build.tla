------------------------------ MODULE MC_build ------------------------------
(* Builders: every short sequence of additions to a small matrix, with      *)
(* given and with following size; every form of addition; permutations and  *)
(* removal of zeros (C02).                                                  *)
EXTENDS SmallMats
CONSTANT Size

NewB(k, t, f, r, c) == C(k, "new", [t |-> t, z |-> "B", form |-> f, r |-> r, c |-> c])
A1(k, t, i, j, v) == C(k, "add", [t |-> t, A |-> "B", form |-> "one", i |-> i, j |-> j, val |-> v])
Sym(k, t, i, j, v) == C(k, "add", [t |-> t, A |-> "B", form |-> "sym", i |-> i, j |-> j, val |-> v])
See(k, t, u) == <<C(k, "tosparse", [t |-> t, A |-> "B", z |-> "z", u |-> u]), C(k, "todense", [t |-> t, A |-> "B", z |-> "D", form |-> "ret"]),
                  C(k, "acc", [t |-> t, A |-> "B", form |-> "rows"]), C(k, "acc", [t |-> t, A |-> "B", form |-> "cols"])>>
(* what is added, in order; observed after every addition *)
AddProg(k, t, f, r, c, adds) ==
  <<NewB(k, t, f, r, c)>> \o When(f # "auto", See(k, t, "")) \o Flat([q \in 1..Len(adds) |-> <<adds[q]>> \o See(k, t, IF q % 2 = 0 THEN "" ELSE IF t = "d" THEN "i" ELSE "d")])

Kinds == {"coo", "lil"}
Adds(k, t) == {A1(k, t, i, j, v) : i \in 0..1, j \in 0..1, v \in {2, -2}} \cup {Sym(k, t, i, j, 3) : i \in 0..1, j \in 0..1}
SeqProgs(k, t, f, n) == Map(Seqs(Adds(k, t), 0, n), LAMBDA s : AddProg(k, t, f, 2, 2, s))
(* far apart entries of an auto-sized builder, in every order *)
Far(k, t) == Map(Seqs({A1(k, t, 0, 0, 1), A1(k, t, 0, 3, 2), A1(k, t, 3, 0, 4), A1(k, t, 2, 1, 5), Sym(k, t, 1, 4, 7)}, 1, 3), LAMBDA s : AddProg(k, t, "auto", 0, 0, s))

(* every form of addition, into an empty and a filled matrix *)
L2 == {<<>>, <<0>>, <<2>>, <<0, 2>>, <<2, 1>>, <<1, 1>>}
Forms(k, t) ==
  LET a(r) == [t |-> t, A |-> "B"] @@ r
      n(s) == Len(s)
      Both == FlatMap(L2, LAMBDA s : <<<<DnNew("S", n(s), n(s), DnVals(n(s), n(s))), C(k, "add", a([form |-> "blk1", rows |-> s, B |-> "S"]))>>>>)
              \o FlatMap(L2 \X L2, LAMBDA q : <<<<DnNew("S", n(q[1]), n(q[2]), DnVals(n(q[1]), n(q[2]))), C(k, "add", a([form |-> "blk2", rows |-> q[1], cols |-> q[2], B |-> "S"]))>>>>)
      OnlyCoo == FlatMap(L2, LAMBDA s :
                   <<<<DnNew("S", n(s), n(s), DnVals(n(s), n(s))), C(k, "add", a([form |-> "sblk1", rows |-> s, B |-> "S", s |-> -2]))>>,
                     <<VecOp(t, "x", TestVec(n(s))), C(k, "add", a([form |-> "colv", rows |-> s, j |-> 1, x |-> "x"]))>>,
                     <<VecOp(t, "x", TestVec(n(s))), C(k, "add", a([form |-> "rowv", cols |-> s, i |-> 2, x |-> "x"]))>>,
                     <<VecOp(t, "x", TestVec(n(s))), C(k, "add", a([form |-> "scolv", rows |-> s, j |-> 0, x |-> "x", s |-> 3]))>>,
                     <<VecOp(t, "x", TestVec(n(s))), C(k, "add", a([form |-> "srowv", cols |-> s, i |-> 0, x |-> "x", s |-> 3]))>>>>)
                 \o FlatMap({q \in L2 \X L2 : n(q[1]) = n(q[2])}, LAMBDA q :
                   <<<<C(k, "add", a([form |-> "list", rows |-> q[1], cols |-> q[2], v |-> TestVec(n(q[1]))]))>>,
                     <<C(k, "add", a([form |-> "slist", rows |-> q[1], cols |-> q[2], v |-> TestVec(n(q[1])), s |-> 2]))>>,
                     <<VecOp(t, "x", TestVec(n(q[1]))), C(k, "add", a([form |-> "listv", rows |-> q[1], cols |-> q[2], x |-> "x"]))>>,
                     <<VecOp(t, "x", TestVec(n(q[1]))), C(k, "add", a([form |-> "slistv", rows |-> q[1], cols |-> q[2], x |-> "x", s |-> -1]))>>,
                     <<DnNew("S", n(q[1]), n(q[2]), DnVals(n(q[1]), n(q[2]))), C(k, "add", a([form |-> "sblk2", rows |-> q[1], cols |-> q[2], B |-> "S", s |-> 2]))>>>>)
  IN Both \o When(k = "coo", OnlyCoo)
FormProgs(k, t) ==
  Map({1, 2}, LAMBDA m : <<NewB(k, t, "rc", 3, 3)>> \o When(m = 2, <<A1(k, t, 0, 1, 7), A1(k, t, 2, 2, 1)>>) \o Flat([q \in 1..Len(Forms(k, t)) |-> Forms(k, t)[q] \o <<See(k, t, "")[1 + (q % 2)]>>]))
  \o LET G == Forms(k, t)
     IN [q \in 1..Len(G) |-> <<NewB(k, t, "auto", 0, 0), A1(k, t, 1, 0, 5)>> \o G[q] \o See(k, t, "")]

(* permutations, removal of zeros, change of size *)
Fill(k, t) == <<A1(k, t, 0, 0, 1), A1(k, t, 0, 1, -2), A1(k, t, 1, 2, 3), A1(k, t, 1, 2, -3), A1(k, t, 1, 0, 2), A1(k, t, 0, 0, 0)>>
EditProg(k, t) ==
  <<NewB(k, t, "rc", 2, 3)>> \o Fill(k, t)
  \o When(k = "coo", FlatMap(Perms(2) \X Perms(3), LAMBDA q : FlatMap({"rows", "cols", "both"}, LAMBDA f :
        <<Copy("B", "S"), C(k, "perm", [t |-> t, A |-> "B", form |-> f, rows |-> q[1], cols |-> q[2]])>> \o See(k, t, "") \o <<C("life", "assign", [x |-> "B", y |-> "S"])>>)))
  \o FlatMap(0..3, LAMBDA v : <<Copy("B", "S"), C(k, "elimzeros", [t |-> t, A |-> "S", tol |-> v]), C(k, "tosparse", [t |-> t, A |-> "S", z |-> "z", u |-> ""])>>)
  \o <<Copy("B", "S"), C(k, "elimzeros", [t |-> t, A |-> "S"]), C(k, "tosparse", [t |-> t, A |-> "S", z |-> "z", u |-> ""])>>
  \o <<C(k, "setsize", [t |-> t, A |-> "B", r |-> 4, c |-> 3]), A1(k, t, 3, 2, 9)>> \o See(k, t, "")
  \o When(k = "coo", <<C(k, "reserve", [t |-> t, A |-> "B", n |-> 9])>> \o See(k, t, ""))
Programs ==
  LET n == IF Size = 1 THEN 2 ELSE 3
  IN FlatMap(Kinds, LAMBDA k : SeqProgs(k, "d", "rc", n) \o SeqProgs(k, "d", "auto", 2) \o SeqProgs(k, "i", "sq", 2) \o Far(k, "d") \o FormProgs(k, "d") \o FormProgs(k, "i")
                     \o <<EditProg(k, "d"), EditProg(k, "i")>>)

(* the order of additions does not matter; converting and adding commute *)
Law == (IsK(heap, "B", BuilderKinds) /\ BSized(heap["B"])) =>
         LET b == heap["B"]
             rev == [b EXCEPT !.e = [q \in 1..Len(@) |-> @[Len(@) + 1 - q]]]
         IN /\ BDn(rev) = BDn(b)
            /\ RowsOfSp(BSp(b, "d")) = RowsOfDn(BDn(b))
            /\ SumSeq(BDense(b)) = SumSeq([q \in 1..Len(b.e) |-> b.e[q][3]])
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
