------------------------------ MODULE MiscArea ------------------------------
(* Command-line parser (C17), timer (C20), graph partitioning (C18).        *)
(*   ap   [k, vals: flag -> value ("" for none), dup: flags given again,    *)
(*         seen: flag -> <<value, help>>, rep: flags registered again, need]*)
(*   tm   [k, iv: intervals in microseconds, run: clicked at least once,    *)
(*         at: the time of its last click]                                  *)
(* memo[<<"now">>] is the time that really passed, whatever the wall clock  *)
(* was set to.                                                              *)
EXTENDS FileArea

(* a token: [s: text, d: number of leading dashes (2: two or more), c: class] *)
RECURSIVE ArgEntries(_)
ArgEntries(av) ==               \* <<flag, value, value's class>>
  IF av = <<>> THEN <<>>
  ELSE IF Len(av) > 1 /\ av[2].d < 2
         THEN <<<<av[1].s, av[2].s, av[2].c>>>> \o ArgEntries(SubSeq(av, 3, Len(av)))
         ELSE <<<<av[1].s, "", "none">>>> \o ArgEntries(Tail(av))
RECURSIVE WellFormed(_)
WellFormed(av) ==            \* every entry begins with a flag
  IF av = <<>> THEN TRUE
  ELSE av[1].d > 0 /\ (IF Len(av) > 1 /\ av[2].d < 2 THEN WellFormed(SubSeq(av, 3, Len(av))) ELSE WellFormed(Tail(av)))
NoHelp(av) == SelectSeq(av, LAMBDA t : t.s # "--help")
FirstOf(E, fl) == E[CHOOSE i \in 1..Len(E) : E[i][1] = fl /\ \A j \in 1..(i - 1) : E[j][1] # fl]
Flags(E) == {E[i][1] : i \in 1..Len(E)}
(* flags of every entry that repeats an earlier one *)
Again(E) == LET D == SelectSeq([i \in 1..Len(E) |-> <<E[i][1], \E j \in 1..(i - 1) : E[j][1] = E[i][1]>>], LAMBDA p : p[2])
            IN [i \in 1..Len(D) |-> D[i][1]]

CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBagS(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : CountIn(s, s[i]) = CountIn(t, s[i])

IsAp(h, s) == IsK(h, s, {"ap"})
ApPre(h, op, a) ==
  CASE op = "new" -> a.form = "default" \/ (WellFormed(NoHelp(a.argv)) /\ \A i \in 1..Len(a.argv) : a.argv[i].s # "")
    [] op = "parse" ->
         /\ IsAp(h, a.x)
         \* the text can be read as a value of that type
         /\ a.flag \in DOMAIN h[a.x].vals => (LET c == h[a.x].vals[a.flag][2] IN
               CASE a.ty = "bool" -> TRUE [] a.ty = "str" -> TRUE
                 [] a.ty = "int" -> c \in {"int", "none"} [] a.ty = "dbl" -> c \in {"int", "dbl", "none"})
    [] op = "show" -> IsAp(h, a.x)
Negated(v) == IF v = "true" THEN "false" ELSE "true"
ApEff(h, op, a, e) ==
  CASE op = "new" ->
         LET av == IF a.form = "default" THEN <<>> ELSE a.argv
             E == ArgEntries(NoHelp(av))
         IN Do(Put(h, a.z, [k |-> "ap", vals |-> [fl \in Flags(E) |-> <<FirstOf(E, fl)[2], FirstOf(E, fl)[3]>>], dup |-> Again(E),
                            seen |-> <<>>, helps |-> <<>>, rep |-> <<>>, need |-> \E i \in 1..Len(av) : av[i].s = "--help"]))
    [] op = "parse" ->
         LET p == h[a.x]
             given == a.flag \in DOMAIN p.vals
             val == IF ~given THEN a.def
                    ELSE IF a.ty = "bool" THEN Negated(a.def)
                    ELSE IF p.vals[a.flag][1] = "" THEN a.def ELSE p.vals[a.flag][1]
             hp == IF "help" \in DOMAIN a THEN a.help ELSE ""
         IN Ret([h EXCEPT ![a.x] = IF a.flag \in DOMAIN p.seen THEN [p EXCEPT !.rep = Append(@, a.flag), !.helps = (a.flag :> hp) @@ @]
                                   ELSE [p EXCEPT !.seen = (a.flag :> val) @@ @, !.helps = (a.flag :> hp) @@ @]], val)
    [] op = "show" -> Ret(h, 1)
ApMatch(x, o) ==
  /\ o.k = "ap"
  /\ o.good = (IF x.dup = <<>> /\ x.rep = <<>> /\ ~x.need THEN 1 ELSE 0)
  /\ SameBagS(o.err, x.dup \o x.rep)
  /\ LET fs == SetToSeq(DOMAIN x.seen)
     IN /\ SameBagS(o.opt, [i \in 1..Len(fs) |-> <<fs[i], x.seen[fs[i]], x.helps[fs[i]]>>])
        /\ SameBagS(o.help, [i \in 1..Len(fs) |-> <<fs[i], x.helps[fs[i]]>>])

-----------------------------------------------------------------------------
(* timer *)
Now == IF <<"now">> \in DOMAIN memo THEN memo[<<"now">>] ELSE 0
SetNow(t) == (<<"now">> :> t) @@ memo
IsTm(h, s) == IsK(h, s, {"tm"})
TmTotal(x) == SumSeq(x.iv)
TmPre(h, op, a) ==
  CASE op = "new" -> TRUE
    [] op = "wait" -> a.us >= 0
    [] op = "setclock" -> TRUE
    [] op = "click" -> IsTm(h, a.x)
    [] op = "read" -> IsTm(h, a.x) /\ (a.form = "i" => a.i >= 0 /\ a.i < Len(h[a.x].iv))
TmEff(h, op, a, e) ==
  CASE op = "new" -> Do(Put(h, a.z, [k |-> "tm", iv |-> <<>>, run |-> a.form = "true", at |-> IF a.form = "true" THEN Now ELSE 0]))
    [] op = "wait" -> [h |-> h, r |-> <<>>, m |-> SetNow(Now + a.us), ok |-> TRUE]
    [] op = "setclock" -> Do(h)                       \* somebody sets the wall clock: no time passes
    [] op = "click" -> LET x == h[a.x] IN
         Do([h EXCEPT ![a.x] = [x EXCEPT !.run = TRUE, !.at = Now, !.iv = IF x.run THEN Append(@, Now - x.at) ELSE @]])
    [] op = "read" -> Ret(h, IF a.form = "tot" THEN TmTotal(h[a.x]) ELSE h[a.x].iv[a.i + 1])
TmMatch(x, o) == o.k = "tm" /\ o.tot = TmTotal(x) /\ o.iv = x.iv

-----------------------------------------------------------------------------
(* partitioning *)
PtGraph(h, a) == IsK(h, a.A, {"sp"}) /\ h[a.A].t = a.t /\ h[a.A].r = h[a.A].c
SymPattern(m) == LET C == TLCEval([i \in 1..m.r |-> RowCols(m, i - 1)])
                 IN \A i \in 1..m.r : \A j \in C[i] : (i - 1) \in C[j + 1]
SymValues(m) == LET R == TLCEval(Rows(m))
                IN \A i \in 1..m.r : \A j \in DOMAIN R[i] : R[i][j] = R[j + 1][i - 1]
(* vertices 1..n, nb: vertex -> neighbours; everything reachable from S inside W *)
RECURSIVE Reach(_, _, _, _)
Reach(nb, W, S, fr) == IF fr = {} THEN S
                       ELSE LET nx == {w \in UNION {nb[v] : v \in fr} : w \in W /\ w \notin S} IN Reach(nb, W, S \cup nx, nx)
ConnectedIn(nb, W) == W = {} \/ (LET v == CHOOSE v \in W : TRUE IN Reach(nb, W, {v}, {v}) = W)
(* labels after removing the unused ones: the same order, no gaps *)
Compress(p) == LET U == Rng(p) IN [i \in 1..Len(p) |-> Cardinality({u \in U : u < p[i]})]
PartsOf(a) == IF a.form = "dflt" THEN 2 ELSE a.n
PtPre(h, op, a) ==
  CASE op = "part" -> /\ PtGraph(h, a) /\ SymPattern(h[a.A]) /\ PartsOf(a) > 0 /\ PartsOf(a) <= h[a.A].r
                      /\ a.weighted = 1 => SymValues(h[a.A]) /\ \A k \in 1..Nnz(h[a.A]) : Abs(h[a.A].x[k]) >= F
    [] op = "adj" -> PtGraph(h, a)
    [] op = "removeempty" -> a.v # <<>> /\ \A i \in 1..Len(a.v) : a.v[i] >= 0
(* the graph of a matrix as adjacency lists <<starts, neighbours, weights>> *)
GraphOf(m, g, w) ==
  LET n == m.r
      R == TLCEval(Rows(m))
      off(i) == DOMAIN R[i] \ {i - 1}
  IN /\ Len(g[1]) = n + 1 /\ g[1][1] = 0 /\ Len(g[2]) = g[1][n + 1] /\ Len(g[3]) = Len(g[2])
     /\ \A i \in 1..n : /\ g[1][i + 1] - g[1][i] = Cardinality(off(i))
                        /\ \A j \in off(i) : \E q \in (g[1][i] + 1)..g[1][i + 1] :
                              g[2][q] = j /\ g[3][q] = (IF w THEN Abs(R[i][j]) \div F ELSE 1)
(* what the partitioner was asked: <<starts, neighbours, weights, parts, 1000 x imbalance, contiguous, equal vertices, answer>>; *)
(* a call that needs no partitioner (one part) has no such question                                                           *)
AskedRight(m, a, q, p) ==
  /\ GraphOf(m, q, a.form = "all" /\ a.weighted = 1)
  /\ q[4] = PartsOf(a)
  /\ q[5] = (IF a.form \in {"all", "contig", "ub"} THEN 250 * a.ub ELSE 1000)
  /\ q[6] = (IF a.form \in {"all", "contig"} THEN a.contig ELSE 1)
  /\ q[7] = 1
  /\ p = Compress(q[8])
PtEff(h, op, a, e) ==
  CASE op = "part" ->
         LET m == h[a.A]
             n == m.r
             p == e.r[1]
             key == <<"part", m.p, m.j, m.x, PartsOf(a), a.form, a.ub, a.contig, a.weighted>>
             nb == TLCEval([i \in 1..n |-> {j + 1 : j \in RowCols(m, i - 1)} \ {i}])
             contig == IF a.form \in {"all", "contig"} THEN a.contig = 1 ELSE TRUE
         IN [h |-> h, r |-> <<e.r>>, m |-> (key :> p) @@ memo,
             ok |-> /\ Len(p) = n
                    /\ Len(e.r) = 2 => AskedRight(m, a, e.r[2], p)
                    /\ \A i \in 1..n : p[i] >= 0 /\ p[i] < PartsOf(a)
                    /\ Compress(p) = p                                    \* contiguous labels, all of them used
                    /\ contig /\ PartsOf(a) = 2 /\ ConnectedIn(nb, 1..n) => \A q \in Rng(p) : ConnectedIn(nb, {i \in 1..n : p[i] = q})
                    /\ key \in DOMAIN memo => memo[key] = p]
      [] op = "adj" ->                                       \* the graph without self-loops, in any order within a row
         [h |-> h, r |-> <<e.r>>, m |-> memo, ok |-> Len(e.r) = 3 /\ GraphOf(h[a.A], e.r, a.dflt = 0 /\ a.weighted = 1)]
    [] op = "removeempty" -> Ret(h, Compress(a.v))
=============================================================================
