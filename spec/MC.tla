--------------------------------- MODULE MC ---------------------------------
(* Bounded exploration of the specification itself.  A configuration       *)
(* (MC_*.tla) gives the programs to start from and the calls to make; TLC   *)
(* explores every state within the bound, checks the invariants and laws,   *)
(* and exports the behaviours, which check.py replays in the library.       *)
EXTENDS Machine, Footprint, Json

C(m, op, a) == [m |-> m, op |-> op, a |-> a]
Mis(m, op, a) == [m |-> m, op |-> op, a |-> a, mis |-> 1]      \* made in a copy of the process: refused or accepted, without effect
CE(m, op, a, d, r) == [m |-> m, op |-> op, a |-> a, ev |-> [d |-> d, r |-> r]]   \* a result the library may choose, chosen here
Skip(m, op, a) == [m |-> m, op |-> op, a |-> a, skip |-> 1]   \* conforming, but its result is not computed in the model
Exported(cs) == [i \in 1..Len(cs) |-> [k \in DOMAIN cs[i] \ {"ev", "skip"} |-> cs[i][k]]]

NoEvent == [d |-> <<>>]              \* deterministic calls do not look at what was observed
Obs(h, c) == IF "ev" \in DOMAIN c THEN c.ev
             ELSE IF c.m = "sp" /\ c.op = "sort" THEN [d |-> (c.a.A :> SortRows(h[c.a.A]))]
             ELSE IF c.m = "bm" /\ c.op = "getblock" THEN [d |-> (c.a.z :> h[c.a.A].b[Pos(h[c.a.A], c.a.i, c.a.j)])]
             ELSE IF c.m = "print" THEN [d |-> <<>>, r |-> Rendered(h, c.op, c.a)]
             ELSE IF c.m = "pm" /\ c.op \in {"split", "mul", "trans", "rap", "add"}
               THEN LET w == TLCEval(PmResult(h, c.op, c.a)) IN [d |-> (c.a.z :> TLCEval(PmFrom(w.n, w.RS, w.CS, w.R)))]
             ELSE NoEvent
Apply(h, c) == TLCEval(Eff(h, c.m, c.op, c.a, Obs(h, c)))
RunAll(h, cs) == FoldLeft(LAMBDA g, c : Apply(g, c).h, h, cs)

(* All sequences over S of length n, of lengths lo..hi *)
SeqN(S, n) == [1..n -> S]
Seqs(S, lo, hi) == UNION {SeqN(S, n) : n \in lo..hi}
Emit(cs) == PrintT("@@" \o ToJson(Exported(cs)))
Flat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
AsSeq(S) == SetToSeq(S)
Map(S, f(_)) == LET q == SetToSeq(S) IN TLCEval([i \in 1..Len(q) |-> TLCEval(f(q[i]))])       \* one call per element
FlatMap(S, f(_)) == Flat(Map(S, f))
When(b, cs) == IF b THEN cs ELSE <<>>

MCInit0 == scale = 1 /\ memo = <<>>
(* C23: a call changes its outputs and what shares their storage, nothing else *)
Framed(h, h2, c) == \A s \in DOMAIN h : s \in Touched(h, h2, c.m, c.op, c.a) \/ (s \in DOMAIN h2 /\ SeenAs(h, s) = SeenAs(h2, s))
Call(c) ==
  /\ Pre(heap, c.m, c.op, c.a) = TRUE
  /\ LET R == Apply(heap, c)
     IN /\ R.ok = TRUE
        /\ heap' = R.h
        /\ memo' = R.m
        /\ Assert(Framed(heap, R.h, c), <<"footprint", c>>)
  /\ UNCHANGED scale

(* every object is well formed *)
HeapOK(h) ==
  \A s \in DOMAIN h : LET o == h[s] IN
    CASE o.k = "view" -> o.n = 0 \/ (/\ o.o \in DOMAIN h /\ o.f \in DOMAIN h[o.o] /\ o.off >= 0 /\ o.off + o.n <= Len(h[o.o][o.f]))
      [] o.k = "sp" -> SpOK(o)
      [] o.k = "dn" -> Len(o.v) = o.r * o.c
      [] o.k \in BuilderKinds -> o.set => \A q \in Rng(o.e) : q[1] < o.r /\ q[2] < o.c
      [] o.k = "bvec" -> Len(o.off) > 0
      [] o.k = "bm" -> Len(o.b) = NB(o.ro) * NB(o.co) /\ \A q \in 1..Len(o.b) : SpOK(o.b[q])
      [] o.k = "pm" -> PmOK(o)
      [] o.k = "pv" -> o.n = Len(o.L)
      [] o.k = "ps" -> PmOK([n |-> o.n, L |-> o.L]) /\ (o.M = "" \/ (o.M \in DOMAIN h /\ h[o.M].k = "ps"))
      [] OTHER -> TRUE
TypeOK == HeapOK(heap)
=============================================================================
