------------------------------ MODULE MC_solver ------------------------------
(* Every small matrix factored (C07), every small system solved by every    *)
(* iterative solver from several guesses (C12) and by the direct solver     *)
(* (C13), every small symmetric matrix given to the eigensolver (C14).      *)
(* Where the code may choose its result, the solution is chosen here, and   *)
(* TLC checks that the contract accepts it.                                 *)
EXTENDS SmallMats
CONSTANTS Group, Size

Rows2(r, c, f) == [i \in 1..r |-> [j \in 1..c |-> f[<<i - 1, j - 1>>]]]
AllRows(r, c, S) == {Rows2(r, c, f) : f \in [Cells(r, c) -> S]}
SymRows(n, D, O) ==         \* symmetric: diagonal from D, the rest from O
  {[i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE o[<<Min2(i, j) - 1, Max2(i, j) - 1>>]]] : d \in [1..n -> D], o \in [{q \in Cells(n, n) : q[1] < q[2]} -> O]}
NR(R) == Len(R)
NCl(R) == IF R = <<>> THEN 0 ELSE Len(R[1])
Dns(z, R) == DnNew(z, NR(R), NCl(R), Flat([j \in 1..NCl(R) |-> [i \in 1..NR(R) |-> R[i][j]]]))
Sps(z, R, ord) == New("d", z, Csr(NR(R), NCl(R), [q \in Cells(NR(R), NCl(R)) |-> IF R[q[1] + 1][q[2] + 1] = 0 THEN ABSENT ELSE R[q[1] + 1][q[2] + 1]], ord))
MulR(R, x) == [i \in 1..NR(R) |-> SumTo(NCl(R), LAMBDA j : R[i][j] * x[j])]
TrR(R) == IF R = <<>> THEN <<>> ELSE [j \in 1..NCl(R) |-> [i \in 1..NR(R) |-> R[i][j]]]
Weight(R) == SumTo(NR(R), LAMBDA i : SumTo(NCl(R), LAMBDA j : (3 * i + j) * Abs(R[i][j])))

-----------------------------------------------------------------------------
Fact(R, op) == <<Dns("A", R), DnNew("z", 1, 2, <<8, 9>>), Skip("dn", op, [A |-> "A", z |-> "z", form |-> "out"]), Dns("B", R), Skip("dn", op, [A |-> "B", form |-> "in"])>>
Inverted == {R \in UNION {AllRows(1, 1, -2..2), AllRows(2, 2, -2..2), IF Size = 1 THEN AllRows(3, 3, {0, 1}) ELSE AllRows(3, 3, {-1, 0, 1})} : Det(R) # 0}
Factored == IF Size = 1 THEN UNION {AllRows(1, 1, -2..2), AllRows(1, 2, -2..2), AllRows(2, 1, -2..2), AllRows(2, 2, -1..1), AllRows(2, 3, {0, 2}), AllRows(3, 2, {-1, 0}), AllRows(3, 2, {0, 2}), AllRows(3, 3, {0, 1})}
            ELSE UNION {AllRows(2, 2, -2..2), AllRows(3, 2, -1..1), AllRows(2, 3, -1..1), AllRows(1, 4, -1..1), AllRows(4, 1, -1..1), AllRows(4, 2, {0, 1}), AllRows(2, 4, {0, 1})}
FactPrograms == Map(Inverted \cup {<<>>}, LAMBDA R : Fact(R, "inv")) \o Map(Factored, LAMBDA R : Fact(R, "qr") \o Fact(R, "svd"))

-----------------------------------------------------------------------------
Definite == {R \in UNION {SymRows(1, 1..3, {0}), SymRows(2, 1..3, -2..2), IF Size = 1 THEN SymRows(3, {3}, {-1, 0, 1}) ELSE SymRows(3, 1..4, -1..1)} : PosDef(R)}
Indef == {R \in UNION {SymRows(1, -2..2, {0}), SymRows(2, {-2, 0, 1}, -2..2), IF Size = 1 THEN SymRows(3, {0}, {-1, 0, 1}) \cup SymRows(3, {-3}, {0, 1}) ELSE SymRows(3, -2..2, -1..1)} : Det(R) # 0}
Sols(n) == {[i \in 1..n |-> IF i = k THEN 2 ELSE 0] : k \in 0..n} \cup {TestVec(n), [i \in 1..n |-> i - 3]}
Guesses(x) == {[i \in 1..Len(x) |-> 0], x, [i \in 1..Len(x) |-> 4 - 3 * i]}
V(z, v) == VecOp("d", z, v)
Held3(z, R) == CASE Weight(R) % 4 = 0 -> <<Dns(z, R)>>
                 [] Weight(R) % 4 = 1 -> <<Sps(z, R, "down")>>
                 [] Weight(R) % 4 = 2 -> <<Sps(z, R, "up")>>
                 [] OTHER -> <<C("bo", "new", [z |-> z, form |-> "sq", ro |-> <<0, NR(R)>>]), Dns(z \o "n", R), C("bo", "setblock", [A |-> z, i |-> 0, j |-> 0, B |-> z \o "n"])>>
Solve(x, n) == CE("it", "solve", [S |-> "S", b |-> "b", x |-> "x", trunc |-> 0], ("x" :> [k |-> "vec", t |-> "d", v |-> x]) @@ ("S" :> [it |-> 0]), <<0>>)
Solves3(R) == FlatMap(Sols(NR(R)), LAMBDA x : <<V("b", MulR(R, x))>> \o FlatMap(Guesses(x), LAMBDA x0 : <<V("x", x0), Solve(x, NR(R))>>))
Lim(k, v) == C("it", "set", [S |-> "S", form |-> k] @@ (CASE k = "max" -> [max |-> v] [] k = "rel" -> [rel |-> v] [] OTHER -> [abs |-> v]))
Cut(R) == LET x == TestVec(NR(R))
              one(x0) == <<V("x", x0), Skip("it", "solve", [S |-> "S", b |-> "b", x |-> "x", trunc |-> 1])>>
          IN <<V("b", MulR(R, x))>> \o FlatMap(0..3, LAMBDA k : <<Lim("max", k)>> \o FlatMap(Guesses(x), one) \o FlatMap(Guesses(x), one))
             \o <<Lim("max", 300)>> \o FlatMap({1, 2, 3}, LAMBDA r : <<Lim("rel", r)>> \o FlatMap(Guesses(x), one))
Free(ty, R, M) ==
  LET x == TestVec(NR(R))
      a == [ty |-> ty, A |-> "A", b |-> "b", trunc |-> 0, max |-> 300, rel |-> 14, abs |-> 12] @@ (IF M THEN [M |-> "M"] ELSE <<>>)
      o(z) == (z :> [k |-> "vec", t |-> "d", v |-> x])
  IN <<V("b", MulR(R, x)), CE("it", "free", a @@ [form |-> "ret", z |-> "r", defaults |-> 1], o("r"), <<>>), CE("it", "free", a @@ [form |-> "ret", z |-> "r", defaults |-> 0], o("r"), <<>>)>>
     \o FlatMap(Guesses(x), LAMBDA x0 : <<V("x", x0), CE("it", "free", a @@ [form |-> "out", x |-> "x", defaults |-> 1], o("x"), <<>>),
                                          V("x", x0), CE("it", "free", a @@ [form |-> "out", x |-> "x", defaults |-> 0], o("x"), <<>>)>>)
Pre1(R) == [i \in 1..NR(R) |-> [j \in 1..NR(R) |-> IF i = j THEN 1 + i ELSE IF Abs(i - j) = 1 THEN (IF Weight(R) % 2 = 0 THEN 0 ELSE -1) ELSE 0]]
ItProg(ty, R) ==
  LET M == ty \in {"pcg", "pminres"}
      rt == IF ty = "pcg" THEN "cg" ELSE ty
      nw(f, d) == C("it", "new", [ty |-> rt, A |-> "A", M |-> IF M THEN "M" ELSE "", z |-> "S", dot |-> d, form |-> f, verbose |-> 0, max |-> 400, rel |-> 14, abs |-> 12])
  IN Held3("A", R) \o (IF M THEN Held3("M", Pre1(R)) ELSE <<>>)
     \o <<nw("defaults", 0)>> \o Solves3(R)
     \o <<Del("S"), nw("full", 1 + (Weight(R) % 2))>> \o Solves3(R) \o Cut(R) \o <<Del("S")>>
     \o Free(ty, R, M)
ItPrograms == FlatMap(Definite \cup {<<>>}, LAMBDA R : <<ItProg("cg", R), ItProg("pcg", R)>>) \o FlatMap(Definite \cup Indef \cup {<<>>}, LAMBDA R : <<ItProg("minres", R), ItProg("pminres", R)>>)

-----------------------------------------------------------------------------
Direct == IF Size = 1 THEN {R \in UNION {AllRows(1, 1, -2..2), AllRows(2, 2, -1..2), AllRows(3, 3, {0, 1})} : Det(R) # 0} ELSE {R \in UNION {AllRows(2, 2, -2..2), AllRows(3, 3, {-1, 0, 1})} : Det(R) # 0}
SdSolve(S, R, x, tr) ==
  LET o(z) == (z :> [k |-> "vec", t |-> "d", v |-> x])
      A(f, z) == [S |-> S, b |-> "b", tr |-> tr, form |-> f, z |-> z]
  IN <<V("b", MulR(IF tr = 1 THEN TrR(R) ELSE R, x)), V("y", [i \in 1..NR(R) |-> 50]), V("u", <<1, 2>>), CE("sd", "solve", A("view", "y"), o("y"), <<>>),
       CE("sd", "solve", A("resize", "u"), o("u"), <<>>), CE("sd", "solve", A("ret", "r"), o("r"), <<>>)>>
Sd2(S, R) == FlatMap((IF NR(R) = 3 THEN {TestVec(3), <<0, 0, 2>>} ELSE Sols(NR(R))) \X {0, 1}, LAMBDA q : SdSolve(S, R, q[1], q[2]))
SdProg(R) ==
  <<Sps("A", R, IF Weight(R) % 2 = 0 THEN "up" ELSE "down"), C("sd", "new", [A |-> "A", z |-> "S", form |-> IF Weight(R) % 3 = 0 THEN "move" ELSE "copy"])>>
  \o Sd2("S", R)
  \* the solver has its own copy of the matrix, and so has its own copy
  \o <<Copy("S", "T"), Sps("A", [i \in 1..NR(R) |-> [j \in 1..NR(R) |-> IF i = j THEN 9 ELSE 0]], "up")>> \o Sd2("T", R)
  \o <<C("sd", "new", [A |-> "A", z |-> "S", form |-> "copy"])>> \o SdSolve("S", [i \in 1..NR(R) |-> [j \in 1..NR(R) |-> IF i = j THEN 9 ELSE 0]], TestVec(NR(R)), 0)
  \o SdSolve("T", R, TestVec(NR(R)), 1)
SdPrograms == Map(Direct \cup {<<>>}, SdProg)

-----------------------------------------------------------------------------
EigMats == IF Size = 1 THEN UNION {SymRows(1, -2..2, {0}), SymRows(2, -2..2, -2..2), SymRows(3, {0, 1}, {-1, 0, 1}), SymRows(3, {2}, {-1, 0}), SymRows(4, {1}, {0, 1})}
           ELSE UNION {SymRows(3, -1..1, -1..1), SymRows(4, {0, 2}, {-1, 0})}
EigProg(R) ==
  LET n == NR(R)
      S(A, rel, mx, f, z) == Skip("eig", "solve", [E |-> "E", A |-> A, rel |-> rel, max |-> mx, form |-> f, z |-> z])
  IN <<C("eig", "new", [z |-> "E"]), C("eig", "newpair", [z |-> "P"]), Dns("D", R), Sps("A", R, "down"),
       S("D", 8, -1, "ret", "Q"), S("A", 8, -1, "out", "P"), S("D", 0, -1, "out", "P"), S("A", 4, -1, "ret", "Q"), S("D", 8, 1, "out", "P"), S("A", 8, n + 1, "out", "P"),
       S("D", 8, Max2(0, n - 1), "ret", "Q"), S("A", 8, n, "out", "P")>>
EigPrograms == Map(EigMats \cup {<<>>}, EigProg)

-----------------------------------------------------------------------------
Programs == CASE Group = "fact" -> FactPrograms [] Group = "it" -> ItPrograms [] Group = "sd" -> SdPrograms [] OTHER -> EigPrograms
(* Cramer: the chosen solutions are the only ones, in the domain of the direct solver *)
Law == Group = "sd" /\ pc = 2 /\ "A" \in DOMAIN heap =>
         LET R == OpRows(heap, "A")
             n == Len(R)
             d == Det(R)
         IN \A i, j \in 1..n : SumTo(n, LAMBDA q : R[i][q] * Cofactor(R, j, q)) = IF i = j THEN d ELSE 0
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
