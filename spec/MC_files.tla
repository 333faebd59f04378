------------------------------ MODULE MC_files ------------------------------
(* Every small matrix and vector through every file format and back (C15);  *)
(* every small file of every format read in every way, and cut off at every *)
(* length (C16).                                                            *)
EXTENDS SmallMats
CONSTANTS Group, Size

W(x, z, fmt, t, sym, form, dflt) == C("file", "write", [x |-> x, z |-> z, fmt |-> fmt, t |-> t, sym |-> sym, form |-> form, dflt |-> dflt])
R(x, z, fmt, t, sym, dflt) == C("file", "read", [x |-> x, z |-> z, fmt |-> fmt, t |-> t, sym |-> sym, dflt |-> dflt])
SpRec(t, m) == [k |-> "sp", t |-> t, r |-> m.r, c |-> m.c, p |-> m.p, j |-> m.j, x |-> m.x]
Again2(f, fmt, t, sym) == <<R(f, "B", fmt, t, sym, 0), Del("B")>> \o When(sym = 0, <<R(f, "B", fmt, t, 0, 1), Del("B")>>)
MatTrip(t, m) ==
  <<New(t, "A", m)>>
  \o FlatMap({"coo", "adj", "table", "csr", "binm", "mtx"}, LAMBDA fmt :
       FlatMap(IF fmt \in {"coo", "adj"} THEN {0, 1} ELSE {0}, LAMBDA s :
         <<W("A", "f", fmt, t, s, "sp", 0), W("A", "g", fmt, t, s, "sp", 1)>>
         \o When(Kept(SpRec(t, m), s) # <<>> \/ fmt \notin {"coo", "adj"}, Again2("f", fmt, t, s) \o When(s = 1, Again2("f", fmt, t, 0)))))
VecTrip(t, v) ==
  <<VecOp(t, "x", v), C("vec", "arr", [t |-> t, z |-> "a", v |-> v]), C("vec", "view", [t |-> t, z |-> "w", x |-> "x", form |-> "copy"])>>
  \o FlatMap({"text", "binv"}, LAMBDA fmt : FlatMap(IF fmt = "binv" THEN {"vec"} ELSE {"vec", "any"}, LAMBDA f :
       <<W("x", "f", fmt, t, 0, f, 0), R("f", "r", fmt, t, 0, 0)>>))
  \o FlatMap({"text", "binv"}, LAMBDA fmt : <<W("a", "f", fmt, t, 0, "any", 0), R("f", "r", fmt, t, 0, 1)>>)
  \o <<W("w", "f", "text", t, 0, "any", 0), R("f", "r", "text", t, 0, 0)>>
  \* a longer file is overwritten by a shorter one
  \o <<VecOp(t, "y", v \o <<7, 8, 9>>), W("y", "f", "text", t, 0, "vec", 0), W("x", "f", "text", t, 0, "vec", 0), R("f", "r", "text", t, 0, 0),
       W("y", "f", "binv", t, 0, "vec", 0), W("x", "f", "binv", t, 0, "vec", 0), R("f", "r", "binv", t, 0, 0)>>
TripMats == IF Size = 1 THEN UNION {PatMats(s[1], s[2], "down") : s \in {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 3>>, <<3, 1>>, <<2, 3>>}} \cup FullMats(2, 2, "up")
            ELSE BothOrders(3, 3) \cup PatMats(3, 2, "up") \cup FullMats(2, 2, "down")
TripPrograms == Map(TripMats, LAMBDA m : MatTrip("d", m)) \o Map(BothOrders(2, 2), LAMBDA m : MatTrip("i", m))
                \o FlatMap({"d", "i"}, LAMBDA t : Map(Seqs({-1, 0, 250}, 0, 2 + Size), LAMBDA v : VecTrip(t, v)))

-----------------------------------------------------------------------------
Puts(fmt, t, sym, c, num, sep, nl, bn) == C("file", "put", [z |-> "f", fmt |-> fmt, t |-> t, sym |-> sym, c |-> c, num |-> num, sep |-> sep, nl |-> nl, banner |-> bn])
Style(q) == [num |-> <<"plain", "dot", "exp">>[(q % 3) + 1], sep |-> <<"sp", "tab", "wide", "pad", "crlf">>[((q \div 3) % 5) + 1], nl |-> (q \div 2) % 2, bn |-> q % 3]
(* every way to read it that conforms (as Readable says; a constant, so that the programs are computed once) *)
CanRead(fmt, c) ==
  CASE fmt \in {"coo", "adj"} -> c # <<>>
    [] fmt = "graph" -> \E i \in 1..Len(c) : c[i][1] < c[i][2]
    [] OTHER -> TRUE
ReadAll(fmt, t, c, sym) ==
  LET ts == IF fmt \in {"binv", "binm"} THEN {t} ELSE IF t = "i" THEN {"i", "d"} ELSE {"d"}
      ss == IF fmt \in {"coo", "adj"} THEN {0, 1} ELSE {0}
  IN FlatMap({q \in ts \X ss \X {0, 1} : CanRead(fmt, c)}, LAMBDA q : <<R("f", "A", fmt, q[1], q[2], q[3]), Del("A")>>)
FileProg(fmt, t, sym, c, q) ==
  LET s == Style(q)
      nl == IF fmt = "table" /\ (c = <<>> \/ c[Len(c)] = <<>>) THEN 1 ELSE s.nl
  IN <<Puts(fmt, t, sym, c, s.num, s.sep, nl, IF sym = 1 THEN 1 + (q % 2) ELSE s.bn)>> \o ReadAll(fmt, t, c, sym)
EntrySeqs == Seqs({<<i, j>> : i \in 0..1, j \in 0..1}, 1, IF Size = 1 THEN 3 ELSE 4)
Val(k) == <<3, 0, -2, 5>>[k]
Listed(fmt, e) == [k \in 1..Len(e) |-> IF fmt = "coo" THEN <<e[k][1], e[k][2], Val(k)>> ELSE e[k]]
Upper(e) == \A k \in 1..Len(e) : e[k][1] <= e[k][2]
Lower(e) == \A k \in 1..Len(e) : e[k][1] >= e[k][2]
MtxOf(fmt, e, r, c) == <<<<r, c, Len(e)>>>> \o [k \in 1..Len(e) |-> IF fmt = "mtx" THEN <<e[k][1] + 1, e[k][2] + 1, Val(k)>> ELSE <<e[k][1] + 1, e[k][2] + 1>>]
Tag(e) == FoldLeft(LAMBDA n, q : 2 * n + 3 * q[1] + q[2] + 1, Len(e), e)
ListPrograms(e) ==
  <<FileProg("coo", "d", 0, Listed("coo", e), Tag(e)) \o FileProg("coo", "i", 0, Listed("coo", e), Tag(e) + 1)
    \o FileProg("adj", "i", 0, Listed("adj", e), Tag(e) + 2) \o FileProg("graph", "i", 0, Listed("graph", [k \in 1..Len(e) |-> <<e[k][1], e[k][2] + 1>>]), Tag(e))
    \o FileProg("mtx", "d", 0, MtxOf("mtx", e, 2, 3), Tag(e)) \o FileProg("mtxl", "i", 0, MtxOf("mtxl", e, 3, 2), Tag(e) + 1)
    \o When(Upper(e) \/ Lower(e), FileProg("mtx", "d", 1, MtxOf("mtx", e, 2, 2), Tag(e)) \o FileProg("mtx", "i", 1, MtxOf("mtx", e, 3, 3), Tag(e) + 4) \o FileProg("mtxl", "i", 1, MtxOf("mtxl", e, 2, 2), Tag(e)))>>
Lines == {<<>>, <<0>>, <<2>>, <<1, 0>>, <<0, 2>>}
CsrOf(m) == <<<<m.r>>, <<m.c>>, m.p, m.j, m.x>>
Cuts(fmt, t, c, n, q) == FlatMap(0..n, LAMBDA k : <<Puts(fmt, t, 0, c, Style(q).num, Style(q).sep, 1, 0), C("file", "trunc", [x |-> "f", keep |-> k]), R("f", "A", fmt, t, 0, 0)>>)
CutMats == {Csr(2, 2, [q \in Cells(2, 2) |-> IF q[1] = q[2] THEN 3 ELSE IF q[1] = 1 THEN -2 ELSE ABSENT], "down"), Csr(0, 0, [q \in {} |-> 0], "up"), Csr(1, 3, [q \in Cells(1, 3) |-> 6], "up")}
ReadMats == UNION {PatMats(s[1], s[2], "down") : s \in {<<0, 0>>, <<0, 2>>, <<2, 0>>, <<1, 3>>, <<2, 2>>}}
Missing == FlatMap(SpFmt \cup VecFmt, LAMBDA fmt : FlatMap({"dir", "file"} \X {"d", "i"}, LAMBDA q : <<C("file", "readmissing", [z |-> "A", fmt |-> fmt, t |-> q[2], sym |-> 0, form |-> q[1]])>>))
ReadPrograms ==
  FlatMap(EntrySeqs, ListPrograms)
  \o Map(Seqs(Lines, 0, 1 + Size), LAMBDA c : FileProg("table", "i", 0, c, Len(c)) \o FileProg("table", "i", 0, c, Len(c) + 4))
  \o Map(ReadMats, LAMBDA m : FileProg("csr", "d", 0, CsrOf(m), Len(m.j)) \o FileProg("csr", "i", 0, CsrOf(m), Len(m.j) + 5) \o FileProg("binm", "d", 0, CsrOf(m), 0) \o FileProg("binm", "i", 0, CsrOf(m), 0))
  \o Map(Seqs({-1, 0, 250}, 0, 2), LAMBDA v : FlatMap(0..8, LAMBDA q : FileProg("text", "d", 0, <<v>>, q)) \o FileProg("text", "i", 0, <<v>>, Len(v)) \o FileProg("binv", "d", 0, <<v>>, 0) \o FileProg("binv", "i", 0, <<v>>, 0))
  \o FlatMap({"d", "i"}, LAMBDA t : <<Cuts("binv", t, <<<<4, -1>>>>, 24, 0), Cuts("binv", t, <<<<>>>>, 8, 0)>> \o Map(CutMats, LAMBDA m : Cuts("csr", t, CsrOf(m), 5 + Len(m.p) + 2 * Len(m.j), Len(m.j)))
                                   \o Map(CutMats, LAMBDA m : Cuts("binm", t, CsrOf(m), 24 + 4 * (Len(m.p) + Len(m.j)) + 8 * Len(m.j), 0)))
  \o <<Missing>>

-----------------------------------------------------------------------------
Programs == IF Group = "trip" THEN TripPrograms ELSE ReadPrograms
(* what is written and read back is the matrix itself, for the formats that keep the shape *)
Law == Group = "trip" /\ pc = 2 /\ "A" \in DOMAIN heap =>
         LET m == heap["A"]
             back(fmt) == FileSp(FileRec(fmt, m.t, 0, 0, FileOf(m, fmt, 0)), m.t, 0)
         IN /\ SameSp(m, back("csr")) /\ SameSp(m, back("binm")) /\ SameSp(m, back("mtx"))
            /\ Entries(m) # <<>> => RowsOfSp(back("coo")) = [i \in 1..Len(RowsOfSp(back("coo"))) |-> SubSeq(RowsOfSp(m)[i], 1, back("coo").c)]
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
