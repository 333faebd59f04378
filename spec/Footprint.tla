----------------------------- MODULE Footprint ------------------------------
(* What a call may change (C23): the objects it documents as its outputs.   *)
EXTENDS Machine

InPlaceSp == {"sort", "adddiag", "sca", "scale", "permcols", "elim", "elimzeros", "setdata"}
InPlaceDn == {"put", "setsize", "iarith", "sca", "scale", "setrow", "setcol", "set", "fill"}
InPlaceVec == {"arrset", "fill", "put", "setsize", "setview", "assign", "axpy", "ew", "ewmix", "sca", "normalize", "subavg", "rand"}

(* argument names of the outputs *)
OutKeys(m, op, a) ==
  CASE m = "life" -> (CASE op = "copy" -> {"z"} [] op = "move" -> {"x", "z"} [] op \in {"massign", "swap"} -> {"x", "y"} [] OTHER -> {"x"})
    [] m = "vec" -> (CASE op = "swapview" -> {"x", "y"} [] op \in InPlaceVec -> {"x"} [] OTHER -> {"z"})
    [] m = "sp" -> (CASE op \in InPlaceSp -> {"A", "b"} [] OTHER -> {"z", "w"})
    [] m = "dn" -> (CASE op \in InPlaceDn -> {"A"} [] OTHER -> {"z", "w"})
    [] m \in BuilderKinds -> (CASE op \in {"setsize", "reserve", "add", "perm", "elimzeros"} -> {"A"} [] OTHER -> {"z"})
    [] m = "bv" -> {"z", "x"}
    [] m \in {"bm", "bo"} -> (CASE op = "setblock" -> {"A"} \cup (IF "form" \in DOMAIN a /\ a.form = "move" THEN {"B"} ELSE {}) [] OTHER -> {"z"})
    [] m = "op" -> {"z"}
    [] m = "it" -> (CASE op = "set" -> {"S"} [] op = "solve" -> {"S", "x"} [] op = "free" -> {"x", "z"} [] OTHER -> {"z"})
    [] m = "sd" -> {"z"}
    [] m = "eig" -> {"z", "E"}
    [] m \in {"file", "x", "ap", "tm", "pt"} -> {"z", "x", "A"}
    [] m = "pm" -> (IF op \in {"sca", "adddiag", "scale", "elim", "sortmap"} THEN (IF "form" \in DOMAIN a /\ a.form = "neg" THEN {"z"} ELSE {"A"}) ELSE {"z"})
    [] m = "pv" -> (IF op \in {"put", "fill", "ew", "sca", "subavg", "normalize"} THEN {"x"} ELSE {"z"})
    [] m = "ps" -> (IF op \in {"diagscaling", "sailset"} THEN {"S"} ELSE {"z"})
    [] OTHER -> {}
Outputs(m, op, a) == {a[k] : k \in OutKeys(m, op, a) \cap DOMAIN a}
OwnerOf(h, s) == IF s \in DOMAIN h /\ h[s].k = "view" THEN h[s].o ELSE s
Owners(h, S) == {OwnerOf(h, s) : s \in S}
(* the outputs, the storage they are views of, and every view of that storage; solvers and block operators hold no values of their own *)
Touched(h, h2, m, op, a) ==
  LET O == Outputs(m, op, a)
      S == O \cup Owners(h, O) \cup Owners(h2, O)
  IN S \cup {w \in DOMAIN h2 : h2[w].k = "view" /\ h2[w].o \in S}
SeenAs(h, s) == IF h[s].k = "view" THEN <<h[s].t, VecOf(h, s)>> ELSE h[s]
=============================================================================
