------------------------------- MODULE MC_vec -------------------------------
(* Vectors and views over shared storage: every call from every reachable   *)
(* state up to MaxLen calls (C08, C10).                                     *)
EXTENDS MC
CONSTANT MaxLen
VARIABLE hist                        \* the calls made so far
mcvars == <<heap, scale, memo, hist>>

Setup == <<C("vec", "from", [t |-> "d", z |-> "v1", v |-> <<1, 2>>, form |-> "std"]),
           C("vec", "from", [t |-> "d", z |-> "v2", v |-> <<3>>, form |-> "std"]),
           C("vec", "arr", [t |-> "d", z |-> "a1", v |-> <<4, 5, 6>>])>>
Owned == {"v1", "v2"}
Vs == {"v1", "v2", "w1", "w2"}
Calls ==
  LET h == heap
      n == Len(hist)                 \* a value not written before
      has(s) == s \in DOMAIN h /\ h[s].k # "moved"
      len(s) == LenOf(h, s)
      free(s) == s \notin DOMAIN h
  IN {C("vec", "viewptr", [t |-> "d", z |-> w, x |-> x, off |-> o, n |-> k]) :
          w \in {w \in {"w1", "w2"} : free(w)}, x \in {x \in Vs : has(x)}, o \in 0..1, k \in 0..2}
     \cup {C("vec", "view", [t |-> "d", z |-> w, x |-> x, form |-> "ctor"]) : w \in {w \in {"w1", "w2"} : free(w)}, x \in {x \in Vs : has(x)}}
     \cup {C("vec", "viewarr", [t |-> "d", z |-> w, x |-> "a1", off |-> o, n |-> 2, form |-> "ptr"]) : w \in {w \in {"w1", "w2"} : free(w)}, o \in 0..1}
     \cup {C("vec", "assign", [t |-> "d", x |-> w, y |-> y, form |-> f]) :
          w \in {w \in {"w1", "w2"} : has(w)}, y \in {y \in Vs : has(y)}, f \in {"const", "move", "lvalue"}}
     \cup {C("vec", "put", [t |-> "d", x |-> x, i |-> i, val |-> 10 + n, form |-> "idx"]) : x \in {x \in Vs : has(x)}, i \in 0..1}
     \cup {C("vec", "arrset", [t |-> "d", x |-> "a1", i |-> 1, val |-> 10 + n])}
     \cup {C("vec", "fill", [t |-> "d", x |-> x, val |-> 20 + n, form |-> "view"]) : x \in {x \in Vs : has(x)}}
     \cup {C("vec", "setview", [t |-> "d", x |-> x, y |-> y]) : x \in {x \in Owned : has(x)}, y \in {y \in Vs : has(y)}}
     \cup {C("vec", "setsize", [t |-> "d", x |-> x, n |-> k]) : x \in {x \in Owned : has(x)}, k \in 0..2}
     \cup {C("vec", "swapview", [t |-> "d", x |-> "w1", y |-> "w2"]) : b \in {1} \cap (IF has("w1") /\ has("w2") THEN {1} ELSE {})}
     \cup {C("life", op, [x |-> x, z |-> "v3"]) : op \in {op \in {"copy", "move"} : free("v3")}, x \in {x \in Owned : has(x)}}
     \cup {C("vec", "fromview", [t |-> "d", z |-> "v3", x |-> x]) : x \in {x \in Vs : has(x) /\ free("v3")}}
     \cup {C("life", op, [x |-> x, y |-> y]) : op \in {"assign", "massign", "swap"}, x \in {x \in Owned \cup {"v3"} : x \in DOMAIN h}, y \in {y \in Owned \cup {"v3"} : has(y)}}
     \cup {C("life", "del", [x |-> x]) : x \in {x \in {"v3", "w1", "w2"} : x \in DOMAIN h}}

Overlap(h, x, y) ==                   \* partially overlapping source and destination: not a call the library defines
  /\ h[x].k = "view" /\ h[x].n > 0
  /\ LET ox == OwnerOf(h, x)
         oy == OwnerOf(h, y)
         fy == IF h[y].k = "view" THEN h[y].off ELSE 0
     IN ox = oy /\ h[x].off > fy /\ h[x].off < fy + LenOf(h, y)
Fine(c) ==
  /\ (c.op = "viewptr" => c.a.off + c.a.n <= LenOf(heap, c.a.x))
  /\ (c.op = "assign" /\ c.m = "vec" => ~Overlap(heap, c.a.x, c.a.y))
  /\ (c.op = "swap" => heap[c.a.x].k # "moved" /\ c.a.x # c.a.y)
Init == MCInit0 /\ hist = Setup /\ heap = RunAll(<<>>, Setup)
Next == /\ Len(hist) < 3 + MaxLen
        /\ \E c \in Calls : /\ (Fine(c) /\ Pre(heap, c.m, c.op, c.a)) = TRUE
                            /\ Call(c)
                            /\ hist' = Append(hist, c)
                            /\ Len(hist') = 3 + MaxLen => Emit(hist')
Spec == Init /\ [][Next]_mcvars
View1 == heap
=============================================================================
