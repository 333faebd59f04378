------------------------------- MODULE MC_part -------------------------------
(* Every small graph, every number of parts, every option (C18).            *)
EXTENDS SmallMats
CONSTANTS MaxVertices, MaxLabel

Edges(n) == {q \in Cells(n, n) : q[1] < q[2]}
Graph(n, E, diag, ord) ==
  Csr(n, n, [q \in Cells(n, n) |-> IF q[1] = q[2] THEN (IF q[1] % 2 = diag THEN 4 ELSE ABSENT)
                                   ELSE IF q \in E \/ <<q[2], q[1]>> \in E THEN (IF (q[1] + q[2]) % 2 = 0 THEN 1 ELSE -3) ELSE ABSENT], ord)
P(t, n, f, c, w) == Skip("pt", "part", [t |-> t, A |-> "G", n |-> n, form |-> f, ub |-> 4, contig |-> c, weighted |-> w])
Adj(t) == FlatMap({0, 1} \X {0, 1}, LAMBDA q : <<Skip("pt", "adj", [t |-> t, A |-> "G", weighted |-> q[1], dflt |-> q[2]])>>)
Prog(n, E) ==
  LET t == IF Cardinality(E) % 3 = 2 THEN "i" ELSE "d"
      m == Graph(n, E, Cardinality(E) % 3, IF Cardinality(E) % 2 = 0 THEN "up" ELSE "down")
  IN <<New(t, "G", m)>> \o Adj(t)
     \o FlatMap(1..n, LAMBDA k : FlatMap({0, 1} \X {0, 1}, LAMBDA q : <<P(t, k, "all", q[1], q[2])>>) \o <<P(t, k, "n", 0, 0), P(t, k, "contig", 1, 0), P(t, k, "contig", 0, 0), P(t, k, "ub", 0, 0)>>)
     \o When(n > 1, <<P(t, 2, "dflt", 0, 0)>>)
     \* the same question again, after all the others
     \o When(n > 1, <<P(t, 2, "all", 1, 1), P(t, 2, "dflt", 0, 0)>>)
Labels == Seqs(0..MaxLabel, 1, MaxVertices)
Programs == FlatMap(1..MaxVertices, LAMBDA n : Map(SUBSET Edges(n), LAMBDA E : Prog(n, E)))
            \o Map(Labels, LAMBDA v : <<C("pt", "removeempty", [v |-> v])>>)

(* removing the unused labels keeps who is with whom, and the order *)
Law == pc = 1 /\ prog = 1 => \A v \in Labels : LET p == Compress(v) IN
         /\ Compress(p) = p
         /\ \A i \in 1..Len(v) : \A j \in 1..Len(v) : (v[i] < v[j]) = (p[i] < p[j])
         /\ Rng(p) = 0..(Cardinality(Rng(v)) - 1)
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
