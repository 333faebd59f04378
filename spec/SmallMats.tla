------------------------------ MODULE SmallMats ------------------------------
(* Families of small matrices for the bounded configurations.               *)
EXTENDS MCProg

ABSENT == 99
(* compressed rows from cell contents f : (0..r-1) x (0..c-1), columns of each row upwards or downwards *)
CsrCols(r, c, f, i, ord) ==
  LET up == SelectSeq([j \in 1..c |-> j - 1], LAMBDA j : f[<<i, j>>] # ABSENT)
      n == Len(up)
  IN IF ord = "up" THEN up ELSE [q \in 1..n |-> up[n + 1 - q]]
Csr(r, c, f, ord) ==
  LET cols == [i \in 1..r |-> CsrCols(r, c, f, i - 1, ord)]
  IN [r |-> r, c |-> c,
      p |-> FoldLeft(LAMBDA p, s : Append(p, p[Len(p)] + Len(s)), <<0>>, cols),
      j |-> Flat(cols),
      x |-> Flat([i \in 1..r |-> [q \in 1..Len(cols[i]) |-> f[<<i - 1, cols[i][q]>>]]])]
Cells(r, c) == (0..(r - 1)) \X (0..(c - 1))
(* a different value in every cell *)
CellVal(i, j) == (CASE (3 * i + j) % 4 = 0 -> 2 [] (3 * i + j) % 4 = 1 -> -3 [] (3 * i + j) % 4 = 2 -> 5 [] OTHER -> -1) + (IF i > 1 THEN 4 ELSE 0)
PatMats(r, c, ord) == {Csr(r, c, [q \in Cells(r, c) |-> IF q \in S THEN CellVal(q[1], q[2]) ELSE ABSENT], ord) : S \in SUBSET Cells(r, c)}
(* every assignment of absent, an explicit zero, or a value *)
FullMats(r, c, ord) == {Csr(r, c, f, ord) : f \in [Cells(r, c) -> {ABSENT, 0, 2, -4}]}
BothOrders(r, c) == PatMats(r, c, "up") \cup PatMats(r, c, "down")

New(t, z, m) == C("sp", "new", [t |-> t, z |-> z, form |-> "csr", p |-> m.p, j |-> m.j, x |-> m.x, r |-> m.r, c |-> m.c])
VecOp(t, z, v) == C("vec", "from", [t |-> t, z |-> z, v |-> v, form |-> "std"])
DnNew(z, r, c, v) == C("dn", "new", [z |-> z, form |-> "data", r |-> r, c |-> c, v |-> v])
ArrNew(z, v) == C("vec", "arr", [t |-> "i", z |-> z, v |-> v])
Del(x) == C("life", "del", [x |-> x])
Copy(x, z) == C("life", "copy", [x |-> x, z |-> z])
TestVec(n) == [i \in 1..n |-> CASE i % 3 = 1 -> i + 1 [] i % 3 = 2 -> 0 - i [] OTHER -> 0]
Idx0(n) == 0..(n - 1)
InjSeqs(n, lo, hi) == {s \in Seqs(Idx0(n), lo, hi) : Distinct(s)}
Perms(n) == InjSeqs(n, n, n)
DnVals(r, c) == [q \in 1..(r * c) |-> (q * 7 % 11) - 4]

=============================================================================
