------------------------------- MODULE MC_oper -------------------------------
(* Every operator kind holding every small matrix, applied to every unit    *)
(* vector and a test vector, both ways, into every kind of output (C01).    *)
EXTENDS SmallMats
CONSTANT Size

Unit(n, i) == [q \in 1..n |-> IF q = i THEN 1 ELSE 0]
Ones(n) == [q \in 1..n |-> 1]
Ents(m) == Flat([i \in 1..m.r |-> [q \in 1..(m.p[i + 1] - m.p[i]) |-> <<i - 1, m.j[m.p[i] + q], m.x[m.p[i] + q]>>]])
Builder(k, z, t, m) ==
  <<C(k, "new", [t |-> t, z |-> z, form |-> "rc", r |-> m.r, c |-> m.c])>>
  \o LET e == Ents(m) IN Flat([i \in 1..Len(e) |-> <<C(k, "add", [t |-> t, A |-> z, form |-> "one", i |-> e[i][1], j |-> e[i][2], val |-> e[i][3] - 1]),
                                                   C(k, "add", [t |-> t, A |-> z, form |-> "one", i |-> e[i][1], j |-> e[i][2], val |-> 1])>>])
Auto(k, z, m) ==                       \* the size follows: the last entry fixes it
  <<C(k, "new", [t |-> "d", z |-> z, form |-> "auto"]), C(k, "add", [t |-> "d", A |-> z, form |-> "one", i |-> m.r - 1, j |-> m.c - 1, val |-> 6])>>
  \o LET e == Ents(m) IN [i \in 1..Len(e) |-> C(k, "add", [t |-> "d", A |-> z, form |-> "one", i |-> e[i][1], j |-> e[i][2], val |-> e[i][3]])]
Use(z, r, c, ivec) ==
  <<C("op", "size", [A |-> z])>>
  \o FlatMap({0, 1}, LAMBDA tr :
       LET n == IF tr = 1 THEN r ELSE c
           k == IF tr = 1 THEN c ELSE r
       IN <<VecOp("d", "y", [i \in 1..k |-> 90 + i]), VecOp("d", "u", [i \in 1..(k + 1) |-> 70])>>
          \o FlatMap({Unit(n, i) : i \in 0..n} \cup {TestVec(n)}, LAMBDA v :
               <<VecOp("d", "x", v), C("op", "apply", [A |-> z, x |-> "x", tr |-> tr, form |-> "view", z |-> "y"]),
                 C("op", "apply", [A |-> z, x |-> "x", tr |-> tr, form |-> "resize", z |-> "u"])>>)
          \o <<C("op", "apply", [A |-> z, x |-> "x", tr |-> tr, form |-> "ret", z |-> "z"])>>)
  \o <<VecOp("d", "x", TestVec(c)), VecOp("d", "y", Ones(r)), C("op", "inner", [A |-> z, x |-> "x", y |-> "y"])>>
SpUse(t, r, c) ==
  FlatMap({0, 1} \X {"d", "i"} \X {"d", "i"}, LAMBDA q :
     LET n == IF q[1] = 1 THEN r ELSE c
         k == IF q[1] = 1 THEN c ELSE r
     IN <<VecOp(q[2], "x", TestVec(n)), VecOp(q[3], "y", [i \in 1..k |-> 90]),
          C("sp", "mulv", [t |-> t, u |-> q[2], v |-> q[3], A |-> "A", x |-> "x", tr |-> q[1], form |-> "view", z |-> "y"]),
          C("sp", "mulv", [t |-> t, u |-> q[2], v |-> t, A |-> "A", x |-> "x", tr |-> q[1], form |-> "ret", z |-> "z"])>>
        \o When(q[1] = 0 /\ q[2] = t, <<C("sp", "mulv", [t |-> t, u |-> t, v |-> t, A |-> "A", x |-> "x", tr |-> 0, form |-> "op", z |-> "z"])>>))
MatProg(t, m) ==
  <<New(t, "A", m)>> \o Use("A", m.r, m.c, FALSE) \o SpUse(t, m.r, m.c)
  \o <<C("sp", "todense", [t |-> t, A |-> "A", z |-> "M", tr |-> 0, form |-> "ret"])>> \o Use("M", m.r, m.c, TRUE)
  \o Builder("coo", "K", t, m) \o Use("K", m.r, m.c, FALSE) \o Builder("lil", "L", t, m) \o Use("L", m.r, m.c, FALSE)
  \o When(m.r > 0 /\ m.c > 0, Auto("coo", "K", m) \o Use("K", m.r, m.c, FALSE) \o Auto("lil", "L", m) \o Use("L", m.r, m.c, FALSE))
  \o <<C("bo", "new", [z |-> "O", form |-> "rc", ro |-> <<0, m.r, 2 * m.r>>, co |-> <<0, m.c>>]), C("bo", "setblock", [A |-> "O", i |-> 0, j |-> 0, B |-> "M"]),
       C("bo", "setblock", [A |-> "O", i |-> 1, j |-> 0, B |-> "A"])>> \o Use("O", 2 * m.r, m.c, FALSE)
  \o <<C("bm", "new", [t |-> "d", z |-> "B", form |-> "rc", ro |-> <<0, m.r>>, co |-> <<0, m.c, 2 * m.c>>]), New("d", "S", m), C("bm", "setblock", [t |-> "d", A |-> "B", i |-> 0, j |-> 1, B |-> "S", form |-> "copy"])>>
  \o Use("B", m.r, 2 * m.c, FALSE)
  \o <<Del("O")>>
Mats == IF Size = 1 THEN BothOrders(2, 2) \cup PatMats(1, 2, "up") \cup PatMats(2, 1, "down") \cup PatMats(0, 2, "up") \cup PatMats(2, 0, "up") \cup PatMats(0, 0, "up") \cup FullMats(1, 2, "down")
        ELSE UNION {PatMats(s[1], s[2], "down") : s \in {<<2, 3>>, <<3, 2>>, <<3, 3>>}} \cup FullMats(2, 2, "up")
Programs == Map({"d", "i"} \X (IF Size = 1 THEN Mats ELSE {}), LAMBDA q : MatProg(q[1], q[2])) \o (IF Size = 2 THEN Map(Mats, LAMBDA m : MatProg("d", m)) ELSE <<>>)

(* all representations of a matrix are the same operator *)
Law == \A s \in {s \in {"A", "M", "K", "L"} : s \in DOMAIN heap} :
         (pc > 3 /\ IsOper(heap, s) /\ (heap[s].k \in BuilderKinds => heap[s].set)) =>
            \A w \in {w \in {"A", "M"} : w \in DOMAIN heap} : (heap[s].k \in BuilderKinds \/ OpRows(heap, s) = OpRows(heap, w))
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
