------------------------------- MODULE MC_par --------------------------------
(* Distributed objects on every partition of small matrices over 1, 2 and 3 *)
(* ranks (C22).  The law: what a distributed object holds, put together, is *)
(* the sequential object, whatever the partition.                           *)
EXTENDS SmallMats
CONSTANTS Group, Size

(* offsets: n unknowns over P ranks, every rank owns something *)
OffsetsOver(n, P) == {o \in [1..(P + 1) -> 0..n] : OffOK(o, P) /\ o[P + 1] = n /\ \A i \in 1..P : o[i] < o[i + 1]}
(* some rank owns nothing *)
OffsetsGap(n, P) == {o \in [1..(P + 1) -> 0..n] : OffOK(o, P) /\ o[P + 1] = n /\ \E i \in 1..P : o[i] = o[i + 1]}
Rows2(r, c, f) == [i \in 1..r |-> [j \in 1..c |-> f[<<i - 1, j - 1>>]]]
AllRows(r, c, S) == {Rows2(r, c, f) : f \in [Cells(r, c) -> S]}
SymRows(n, D, O) ==
  {[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE o[<<Min2(i, j) - 1, Max2(i, j) - 1>>]]] : d \in [1..n -> D], o \in [{q \in Cells(n, n) : q[1] < q[2]} -> O]}
TrR(R, r, c) == [j \in 1..c |-> [i \in 1..r |-> R[i][j]]]

Blk(m) == [p |-> m.p, j |-> m.j, x |-> m.x, r |-> m.r, c |-> m.c]
(* the blocks of a global matrix, every diagonal entry stored *)
Dist(z, P, rs, cs, R, form) ==
  LET off(o) == [r \in 1..P |-> Offs(o, r)]
      M == PmFrom(P, off(rs), off(cs), R)
      dg(r) == IF rs # cs THEN M.L[r].d
               ELSE MkSp("d", M.L[r].d.r, M.L[r].d.c, [i \in 1..M.L[r].d.r |-> [c \in {c \in 0..(M.L[r].d.c - 1) : c = i - 1 \/ R[rs[r] + i][cs[r] + c + 1] # 0} |-> R[rs[r] + i][cs[r] + c + 1]]])
  IN C("pm", "new", [z |-> z, form |-> form, n |-> P, rs |-> rs, cs |-> cs,
                     L |-> [r \in 1..P |-> [d |-> Blk(dg(r)), o |-> Blk(M.L[r].o), map |-> M.L[r].map]]])
Pv(z, P, off, v) == C("pv", "new", [z |-> z, form |-> "copy", n |-> P, ps |-> off, xs |-> [r \in 1..P |-> SubSeq(v, off[r] + 1, off[r + 1])]])
Unit(n, i) == [q \in 1..n |-> IF q = i THEN 1 ELSE 0]
X(op, a) == C("pm", op, a)

-----------------------------------------------------------------------------
(* one matrix: action, accessors, edits, derived matrices *)
MulV(A, P, rs, cs) ==
  FlatMap({0, 1}, LAMBDA tr :
    LET o == IF tr = 1 THEN rs ELSE cs
        n == o[P + 1]
        q == IF tr = 1 THEN cs ELSE rs
        m == q[P + 1]
    IN <<Pv("y", P, q, [i \in 1..m |-> 90 + i])>>
       \o FlatMap({Unit(n, i) : i \in 1..n} \cup {TestVec(n)}, LAMBDA v :
            <<Pv("x", P, o, v), X("mulv", [A |-> A, x |-> "x", tr |-> tr, form |-> "pview", z |-> "y"])>>)
       \o <<X("mulv", [A |-> A, x |-> "x", tr |-> tr, form |-> "pret", z |-> "r"]), X("mulv", [A |-> A, x |-> "x", tr |-> tr, form |-> "ret"]),
            X("mulv", [A |-> A, x |-> "x", tr |-> tr, form |-> "opret"]), X("mulv", [A |-> A, x |-> "x", tr |-> tr, form |-> "view", z |-> "y"]),
            Pv("y", P, q, [i \in 1..m |-> 7]), X("mulv", [A |-> A, x |-> "x", tr |-> tr, form |-> "op", z |-> "y"])>>)
Accs(A) == FlatMap({"nnz", "maxnorm", "rows", "cols", "grows", "gcols", "rstarts", "cstarts", "comm", "myid"}, LAMBDA f : <<X("acc", [A |-> A, form |-> f])>>)
           \o <<Skip("pm", "pkg", [A |-> A])>>
PerRank(P, off, f(_)) == [r \in 1..P |-> [i \in 1..(off[r + 1] - off[r]) |-> f(off[r] + i)]]
Edits(P, rs, cs) ==
  <<X("scale", [A |-> "A", form |-> "rows", xs |-> PerRank(P, rs, LAMBDA i : i - 2)]),
    X("sca", [A |-> "A", form |-> "mul", val |-> 6]),
    X("scale", [A |-> "A", form |-> "irows", xs |-> PerRank(P, rs, LAMBDA i : IF i % 2 = 1 THEN 2 ELSE -3)])>>
  \o When(rs = cs, <<X("adddiag", [A |-> "A", form |-> "val", val |-> 2]), X("adddiag", [A |-> "A", form |-> "vec", xs |-> PerRank(P, rs, LAMBDA i : i)])>>
                   \o FlatMap(1..4, LAMBDA o : <<X("l1", [A |-> "A", opt |-> o, len |-> o % 2])>>))
  \o <<X("mulv", [A |-> "A", x |-> "x", tr |-> 1, form |-> "ret"]),
       X("scale", [A |-> "A", form |-> "rowsm", xs |-> PerRank(P, rs, LAMBDA i : 0 - i)]), X("scale", [A |-> "A", form |-> "irowsm", xs |-> PerRank(P, rs, LAMBDA i : 0 - i)]),
       X("elim", [A |-> "A", idx |-> [r \in 1..P |-> IF r % 2 = 1 /\ rs[r] < rs[r + 1] THEN 0 ELSE -1]]), X("mulv", [A |-> "A", x |-> "x", tr |-> 1, form |-> "ret"]),
       X("sca", [A |-> "A", form |-> "set", val |-> 3])>>
OneProg(P, rs, cs, R) ==
  <<Dist("A", P, rs, cs, R, "full")>> \o Accs("A") \o MulV("A", P, rs, cs)
  \o <<X("trans", [A |-> "A", z |-> "T", form |-> "member"]), X("trans", [A |-> "T", z |-> "TT", form |-> "free"]),
       X("sca", [A |-> "A", form |-> "neg", z |-> "N"]), X("add", [A |-> "A", B |-> "N", z |-> "Z", sub |-> 0, form |-> "2", alpha |-> 1, beta |-> 1, extra |-> 0, fill |-> -1]),
       X("add", [A |-> "N", B |-> "TT", z |-> "W", sub |-> 1, form |-> "5twice", alpha |-> 3, beta |-> -2, extra |-> 2, fill |-> -1]),
       X("mul", [A |-> "A", B |-> "T", z |-> "AT", form |-> "op"]), X("mul", [A |-> "T", B |-> "A", z |-> "TA", form |-> "free"]),
       X("rap", [A |-> "AT", P |-> "A", z |-> "Q"]), X("rap", [A |-> "A", P |-> "T", R |-> "A", z |-> "Q2"]),
       Copy("A", "B")>>
  \o Edits(P, rs, cs)
  \o <<C("life", "assign", [x |-> "T", y |-> "A"]), Dist("C", P, rs, cs, R, "offsets"), X("mulv", [A |-> "B", x |-> "x", tr |-> 1, form |-> "ret"]), C("life", "move", [x |-> "B", z |-> "D"]), Del("B"),
       X("mulv", [A |-> "D", x |-> "x", tr |-> 1, form |-> "ret"]), C("life", "swap", [x |-> "A", y |-> "C"]), X("mulv", [A |-> "A", x |-> "x", tr |-> 1, form |-> "ret"])>>
Shapes == IF Size = 1 THEN {<<2, 2>>, <<2, 3>>, <<3, 2>>} ELSE {<<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
Vals(s) == IF Size = 2 /\ s[1] * s[2] < 6 THEN {0, 2, -3} ELSE {0, 1}
(* values that tell the cells apart *)
Mark(R) == [i \in 1..Len(R) |-> [j \in 1..Len(R[i]) |-> IF R[i][j] = 1 THEN CellVal(i - 1, j - 1) ELSE R[i][j]]]
Ranks(s) == 1..(IF Size = 1 THEN 2 ELSE 3)
MatProgs == FlatMap(Shapes, LAMBDA s : FlatMap(Ranks(s), LAMBDA P : FlatMap(OffsetsOver(s[1], P) \X OffsetsOver(s[2], P), LAMBDA o :
              Map(AllRows(s[1], s[2], Vals(s)), LAMBDA R : OneProg(P, o[1], o[2], Mark(R))))))
(* three ranks: a stencil on every partition *)
Wide == {[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 4 ELSE IF Abs(i - j) \in D THEN 0 - j ELSE 0]] : D \in {{1}, {2}, {1, 2}, {3}, {}}, n \in {4}}
WideProgs == FlatMap({2, 3, 4}, LAMBDA P : FlatMap(OffsetsOver(4, P), LAMBDA o : Map(Wide, LAMBDA R : OneProg(P, o, o, R))))
             \o FlatMap({2, 3}, LAMBDA P : FlatMap(OffsetsGap(3, P), LAMBDA o : Map({[i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN 4 ELSE IF Abs(i - j) \in D THEN 0 - j ELSE 0]] : D \in {{1}, {2}}}, LAMBDA R : OneProg(P, o, o, R))))
(* every assignment of vertices to ranks *)
Splits == FlatMap({2, 3}, LAMBDA P : FlatMap({f \in [1..3 -> 0..(P - 1)] : \A r \in 0..(P - 1) : r \in Rng(f)}, LAMBDA f :
            Map(PatMats(3, 3, IF P = 2 THEN "up" ELSE "down"), LAMBDA m : <<New("d", "A", m), X("split", [A |-> "A", part |-> f, n |-> P, z |-> "M"]), Skip("pm", "pkg", [A |-> "M"])>>)))
MatPrograms == MatProgs \o WideProgs \o (IF Size = 1 THEN [i \in 1..(Len(Splits) \div 8) |-> Splits[8 * i]] ELSE Splits)

-----------------------------------------------------------------------------
V(op, a) == C("pv", op, a)
VecProg(P, o, x, y) ==
  <<Pv("x", P, o, x), Pv("y", P, o, y)>>
  \o FlatMap({"member", "base", "free", "par", "parloc", "other"}, LAMBDA f : <<V("dot", [x |-> "x", y |-> "y", form |-> f])>>)
  \o FlatMap({"member", "base", "free", "par"}, LAMBDA f : <<V("norm", [x |-> "x", form |-> f])>>)
  \o <<V("sum", [x |-> "x", form |-> "local"]), V("sum", [x |-> "x", form |-> "global"])>>
  \o FlatMap({"add", "sub", "mul"}, LAMBDA f : <<V("ew", [x |-> "y", y |-> "x", form |-> f])>>)
  \o FlatMap({"add", "sub", "mul"}, LAMBDA f : <<V("sca", [x |-> "y", form |-> f, val |-> 2])>>)
  \o <<Copy("x", "w")>> \o (IF SumSeq(x) % Len(x) = 0 THEN <<V("subavg", [x |-> "w"]), V("sum", [x |-> "w", form |-> "global"])>> ELSE <<Skip("pv", "subavg", [x |-> "w"])>>)
  \o When(x # [i \in DOMAIN x |-> 0], <<Copy("x", "u"), V("normalize", [x |-> "u"])>>)
  \o <<V("fill", [x |-> "w", val |-> 3]), V("put", [x |-> "w", rank |-> P - 1, i |-> 0, val |-> 8]), C("life", "swap", [x |-> "w", y |-> "x"]), V("dot", [x |-> "x", y |-> "y", form |-> "free"]),
       V("new", [z |-> "e", form |-> "default", n |-> P]), Copy("e", "f"), C("life", "assign", [x |-> "f", y |-> "x"]), V("norm", [x |-> "f", form |-> "member"]),
       V("new", [z |-> "c", form |-> "const", n |-> P, ps |-> o, val |-> 5]), V("new", [z |-> "d", form |-> "zero", n |-> P, ps |-> o]), V("ew", [x |-> "d", y |-> "c", form |-> "div"])>>
VecPrograms == FlatMap(1..3, LAMBDA n : FlatMap(1..n, LAMBDA P : FlatMap(OffsetsOver(n, P), LAMBDA o :
                 Map([1..n -> IF Size = 1 THEN {-1, 0, 2} ELSE {-3, -1, 0, 2, 4}], LAMBDA x : VecProg(P, o, x, TestVec(n))))))
               \o Map({<<a, b>> : a, b \in Seqs(0..2, 2, 2)}, LAMBDA q : <<X("offsets", [form |-> "vec", sizes |-> <<q[1], q[2]>>])>>)
               \o Map([1..3 -> 0..2], LAMBDA q : <<X("offsets", [form |-> "int", sizes |-> [i \in 1..3 |-> <<q[i]>>]])>>)
               \o Map({m \in Seqs({0, 4, 5, 9}, 1, 3) : Distinct(m)}, LAMBDA m :
                    <<C("coo", "new", [t |-> "d", z |-> "K", form |-> "rc", r |-> 2, c |-> Len(m)])>>
                    \o Flat([i \in 1..Len(m) |-> <<C("coo", "add", [t |-> "d", A |-> "K", form |-> "one", i |-> i % 2, j |-> i - 1, val |-> m[i] + 1])>>])
                    \o <<X("sortmap", [A |-> "K", map |-> m])>>)

-----------------------------------------------------------------------------
S(op, a) == C("ps", op, a)
Sv(s, P, o, b, x0) == <<Pv("b", P, o, b), Pv("x", P, o, x0), Skip("ps", "solve", [S |-> s, b |-> "b", x |-> "x", form |-> "op"]), Skip("ps", "solve", [S |-> s, b |-> "b", x |-> "x", form |-> "member"])>>
MulR(R, x) == [i \in 1..Len(R) |-> SumTo(Len(x), LAMBDA j : R[i][j] * x[j])]
Runs(s, P, o, R) == LET n == Len(R) IN
  Sv(s, P, o, MulR(R, TestVec(n)), [i \in 1..n |-> 2 - i]) \o Sv(s, P, o, MulR(R, TestVec(n)), TestVec(n)) \o Sv(s, P, o, [i \in 1..n |-> 0], [i \in 1..n |-> 5]) \o Sv(s, P, o, Unit(n, 1), Unit(n, 2))
Full(z, ty, M, max, st, times, w) == S("new", [z |-> z, ty |-> ty, A |-> "A", n |-> 0, form |-> "full", max |-> max, tol |-> 10, verbose |-> 0, stype |-> st, times |-> times, weight |-> w \div 10 + 1, omega |-> w % 10] @@ (IF M = "" THEN <<>> ELSE [M |-> M]))
At2(c, P) == [c EXCEPT !.a.n = P]
Fulls(P, z, ty, M, max, st, times, w) == At2(Full(z, ty, M, max, st, times, w), P)
SolProg(P, o, R) ==
  LET pre == <<<<"amg", 0, 1, 1>>, <<"sails", 0, 1, 1>>, <<"diag", 0, 1, 1>>, <<"smooth", 0, 1, 1>>, <<"smooth", 1, 1, 1>>, <<"smooth", 1, 2, 11>>, <<"smooth", 2, 1, 1>>, <<"smooth", 2, 1, 2>>, <<"smooth", 2, 2, 12>>, <<"smooth", 3, 1, 1>>>>
  IN <<Dist("A", P, o, o, R, "full")>>
     \o Flat([k \in 1..Len(pre) |->
          LET q == pre[k] IN
          <<Fulls(P, "M", q[1], "", 1, q[2], q[3], q[4])>> \o Runs("M", P, o, R)
          \o <<Fulls(P, "Q", "cg", "M", 1, 0, 1, 1)>> \o Sv("Q", P, o, MulR(R, TestVec(Len(R))), TestVec(Len(R)))
          \o <<Fulls(P, "Q1", "cg", "M", 200, 0, 1, 1)>> \o Runs("Q1", P, o, R)
          \* copies solve like the original, also when that is gone
          \o <<Copy("Q1", "Q2"), Del("Q1")>> \o Runs("Q2", P, o, R)
          \o <<C("life", "assign", [x |-> "Q2", y |-> "Q"])>> \o Sv("Q2", P, o, MulR(R, TestVec(Len(R))), TestVec(Len(R)))
          \o <<Skip("ps", "lobpcg", [A |-> "A", n |-> P, ev |-> 1, form |-> "count", M |-> "M"]), Del("Q2"), Del("Q"), Copy("M", "M2"), Del("M")>> \o Runs("M2", P, o, R) \o <<Del("M2")>>])
     \o <<Fulls(P, "Q", "cg", "", 1, 0, 1, 1)>> \o Runs("Q", P, o, R) \o <<S("diagscaling", [S |-> "Q"])>> \o Runs("Q", P, o, R)
     \o <<S("new", [z |-> "D", ty |-> "cg", form |-> "default", n |-> P]), Copy("D", "E"), C("life", "assign", [x |-> "D", y |-> "Q"])>> \o Runs("D", P, o, R)
     \o Flat([m \in 1..Len(R) |-> <<Skip("ps", "lobpcg", [A |-> "A", n |-> P, ev |-> m, form |-> "other"])>>])
Definite == {R \in UNION {SymRows(2, {2, 4}, {-1, 0, 1}), IF Size = 1 THEN SymRows(3, {4}, {-1, 0}) ELSE SymRows(3, {2, 4, 5}, {-1, 0, 1})} : PosDef(R)}
SolPrograms == FlatMap(1..3, LAMBDA P : FlatMap({R \in Definite : Len(R) >= P}, LAMBDA R : Map(OffsetsOver(Len(R), P), LAMBDA o : SolProg(P, o, R))))

-----------------------------------------------------------------------------
Programs == CASE Group = "mat" -> MatPrograms [] Group = "vec" -> VecPrograms [] OTHER -> SolPrograms
(* distributing and putting together is the identity, in every pattern; a product is the action of its factors *)
Law == /\ Group = "mat" /\ pc > 1 /\ "A" \in DOMAIN heap /\ heap["A"].k = "pm" =>
            PmIs(PmFrom(heap["A"].n, RSof(heap["A"]), CSof(heap["A"]), PmRows(heap["A"])), heap["A"].n, RSof(heap["A"]), CSof(heap["A"]), PmRows(heap["A"]))
       /\ "TT" \in DOMAIN heap /\ ({"B", "D"} \intersect DOMAIN heap = {}) => PmRows(heap["TT"]) = PmRows(heap["A"])
       /\ "Z" \in DOMAIN heap => \A r \in Rng(PmRows(heap["Z"])) : \A v \in Rng(r) : v = 0
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
