------------------------------- MODULE MC_arith -------------------------------
(* Vector arithmetic (C09): every operation of the algebra on every small   *)
(* pair of vectors, on owning vectors and on sections of an array, aliased  *)
(* operands included; laws of the algebra itself.                           *)
EXTENDS SmallMats
CONSTANT Size

V(op, t, r) == C("vec", op, [t |-> t] @@ r)
From(t, z, v) == VecOp(t, z, v)
Vals == IF Size = 1 THEN {-2, 0, 3} ELSE {-2, 0, 3, 7}
Reset(t, x) == V("setview", t, [x |-> "z", y |-> x])           \* z becomes a copy of x
Coef == IF Size = 1 THEN {0, -1, 3} ELSE {0, 1, -1, 3}
Nz(v) == [i \in 1..Len(v) |-> CASE v[i] = 0 -> 1 [] v[i] = 3 -> -1 [] OTHER -> v[i]]     \* divisors that are powers of two
Even(v) == [i \in 1..Len(v) |-> 4 * v[i]]

(* binary operations with z as the one that changes; y is another vector *)
Upd(t) == FlatMap({"add", "sub", "set"} \X Coef, LAMBDA q : <<Reset(t, "x"), V("axpy", t, [x |-> "z", y |-> "y", al |-> q[2], form |-> q[1]])>>)
   \o FlatMap({"add1", "sub1", "set1"}, LAMBDA f : <<Reset(t, "x"), V("axpy", t, [x |-> "z", y |-> "y", al |-> 0, form |-> f])>>)
   \o FlatMap({"mul", "add", "sub"}, LAMBDA f : <<Reset(t, "x"), V("ew", t, [x |-> "z", y |-> "y", form |-> f])>>)
   \o FlatMap({"add", "sub"}, LAMBDA f : <<Reset(t, "x"), V("addz", t, [x |-> "x", y |-> "y", z |-> "z", form |-> f]),
                                           V("expr", t, [x |-> "x", y |-> "y", z |-> "e", form |-> f])>>)
   \o FlatMap({<<1, 1, 0>>, <<2, -1, 3>>, <<0, 0, 1>>, <<-1, 2, -1>>}, LAMBDA q :
        <<Reset(t, "x"), V("comb", t, [x |-> "x", y |-> "y", z |-> "z", al |-> q[1], be |-> q[2], ga |-> q[3]])>>)
PairP(t, x, y) ==
  <<From(t, "x", x), From(t, "y", y), From(t, "z", x)>> \o Upd(t)
  \o <<From(t, "n", Nz(y)), From(t, "z", Even(x)), V("ew", t, [x |-> "z", y |-> "n", form |-> "div"])>>
  \o Flat(<< [i \in 1..4 |-> V("dot", t, [x |-> "x", y |-> "y", form |-> <<"mem", "op", "free", "vec">>[i]])],
     <<V("eq", t, [u |-> t, x |-> "x", y |-> "y"]), V("eq", t, [u |-> t, x |-> "x", y |-> "x"])>> >>)
  \* the operands are unchanged
  \o <<V("list", t, [x |-> "x", form |-> "const"]), V("list", t, [x |-> "y", form |-> "it"])>>
(* the same updates on sections of one array, and aliased operands *)
AliasP(t, x, y) ==
  LET n == Len(x)
      sect(z, o) == V("viewarr", t, [x |-> "a", z |-> z, off |-> o, n |-> n, form |-> "ptr"])
  IN <<C("vec", "arr", [t |-> t, z |-> "a", v |-> <<9>> \o x \o y \o <<9>>]), sect("p", 1), sect("q", n + 1),
       V("axpy", t, [x |-> "p", y |-> "q", al |-> 3, form |-> "add"]), V("ew", t, [x |-> "q", y |-> "p", form |-> "sub"]),
       V("ew", t, [x |-> "p", y |-> "p", form |-> "add"]), V("axpy", t, [x |-> "p", y |-> "p", al |-> -2, form |-> "sub"]), V("ew", t, [x |-> "q", y |-> "q", form |-> "mul"]),
       V("comb", t, [x |-> "p", y |-> "q", z |-> "p", al |-> 2, be |-> -1, ga |-> 1]), V("addz", t, [x |-> "q", y |-> "p", z |-> "p", form |-> "sub"]),
       V("axpy", t, [x |-> "q", y |-> "q", al |-> 2, form |-> "set"]), V("dot", t, [x |-> "p", y |-> "p", form |-> "mem"]), V("dot", t, [x |-> "p", y |-> "q", form |-> "op"]),
       V("assign", t, [x |-> "p", y |-> "q", form |-> "const"]), V("eq", t, [u |-> t, x |-> "p", y |-> "q"]), V("sca", t, [x |-> "q", val |-> 2, form |-> "add"]),
       V("eq", t, [u |-> t, x |-> "q", y |-> "p"]), V("fill", t, [x |-> "p", val |-> 5, form |-> "view"]), V("red", t, [x |-> "q", form |-> "sum"])>>
(* one vector *)
RedForms(x) == {"sum", "sumf", "size"} \cup (IF x = <<>> THEN {} ELSE {"max", "min", "absmax", "absmin"})
  \cup (IF x # <<>> /\ SumSeq(x) % Len(x) = 0 THEN {"mean"} ELSE {})
  \cup (LET s == SumSeq(MapS(x, LAMBDA q : q * q)) IN IF ISqrt(s) * ISqrt(s) = s THEN {"l2", "l2f"} ELSE {})
OneP(t, x) ==
  <<From(t, "x", x), From(t, "z", x)>>
  \o FlatMap(RedForms(x), LAMBDA f : <<V("red", t, [x |-> "x", form |-> f])>>)
  \o FlatMap({"mul", "add", "sub"} \X {0, 2, -1}, LAMBDA q : <<Reset(t, "x"), V("sca", t, [x |-> "z", val |-> q[2], form |-> q[1]])>>)
  \o FlatMap({1, -1, 2} \cup (IF t = "i" THEN {3, -3} ELSE {}), LAMBDA v : <<From(t, "z", IF t = "i" THEN x ELSE Even(x)), V("sca", t, [x |-> "z", val |-> v, form |-> "div"]),
                                                                             From(t, "y", IF t = "i" THEN x ELSE Even(x)), V("expr", t, [x |-> "y", val |-> v, z |-> "e", form |-> "xd"])>>)
  \o FlatMap({"xv", "vx"} \X {0, 2, -1}, LAMBDA q : <<V("expr", t, [x |-> "x", val |-> q[2], z |-> "e", form |-> q[1]])>>)
  \o FlatMap({0, 4, -8}, LAMBDA v : <<From(t, "n", Nz(x)), V("expr", t, [x |-> "n", val |-> v, z |-> "e", form |-> "dx"])>>)
  \o FlatMap(Seqs(Idx0(Len(x)), 0, 2), LAMBDA s : <<V("sub", t, [x |-> "x", idx |-> s, z |-> "s", form |-> "ret"]), V("sub", t, [x |-> "x", idx |-> s, z |-> "e", form |-> "out"])>>)
  \o FlatMap({"const", "it", "size", "data"}, LAMBDA f : <<V("list", t, [x |-> "x", form |-> f])>>)
  \o FlatMap(Idx0(Len(x)), LAMBDA i : <<V("get", t, [x |-> "x", i |-> i, form |-> "const"]), V("get", t, [x |-> "x", i |-> i, form |-> "ref"]),
                                        Reset(t, "x"), V("put", t, [x |-> "z", i |-> i, val |-> 8, form |-> "iter"]), V("eq", t, [u |-> t, x |-> "x", y |-> "z"]), V("eq", t, [u |-> t, x |-> "z", y |-> "x"])>>)
  \o When(t = "d" /\ x # <<>>, <<From(t, "z", [i \in 1..Len(x) |-> Len(x) * x[i]]), V("subavg", t, [x |-> "z"])>>)
  \o When(t = "d", FlatMap(Idx0(Len(x)) \X {-14, -13, -11, -10, -6, -3} \X {0, 1} \X {"fwd", "rev"}, LAMBDA q :
            <<V("eqpert", t, [x |-> "x", i |-> q[1], e |-> q[2], neg |-> q[3], form |-> q[4]])>>))
(* normalising: what rounding leaves is the library's, the contract is checked on the trace *)
NormP(x) == FlatMap({"mem", "free"} \X {0, -20}, LAMBDA q : <<From("d", "z", x), Skip("vec", "normalize", [x |-> "z", e |-> q[2], form |-> q[1]]), Del("z")>>)
RandP(t, n, lo, hi, seed) ==
  LET mid == Const(n, lo * (IF t = "i" THEN 1 ELSE 1000000))
      R(x, f) == CE("vec", "rand", [t |-> t, x |-> x, lo |-> lo, hi |-> hi, seed |-> seed, form |-> f], <<>>, mid)
  IN <<From(t, "x", Const(n, 7)), R("x", "mem"), R("x", "free"), From(t, "y", Const(n, -7)), R("y", "mem"), R("y", "mem")>>
(* sizes, defaults and mixed element types *)
MixP(x, y) == <<From("d", "x", x), From("i", "y", y), V("ewmix", "d", [x |-> "x", y |-> "y"]), V("eq", "d", [u |-> "i", x |-> "x", y |-> "y"]), V("eq", "i", [u |-> "d", x |-> "y", y |-> "x"]),
                From("d", "w", y), V("eq", "d", [u |-> "i", x |-> "w", y |-> "y"]), V("eq", "i", [u |-> "d", x |-> "y", y |-> "w"])>>
SizeP(t, n, k) == <<V("new", t, [z |-> "x", n |-> n]), V("newval", t, [z |-> "y", n |-> n, val |-> -6]), V("eq", t, [u |-> t, x |-> "x", y |-> "y"]),
                    V("setsize", t, [x |-> "y", n |-> k]), V("setsize", t, [x |-> "x", n |-> k, val |-> 5]), V("eq", t, [u |-> t, x |-> "x", y |-> "y"]), V("default", t, [z |-> "d"]),
                    V("eq", t, [u |-> t, x |-> "x", y |-> "d"]), V("setview", t, [x |-> "d", y |-> "x"]), V("red", t, [x |-> "d", form |-> "sum"]), V("list", t, [x |-> "y", form |-> "data"])>>
Vecs(n) == Seqs(Vals, n, n)
Pairs == UNION {Vecs(n) \X Vecs(n) : n \in 0..(IF Size = 1 THEN 1 ELSE 2)}
   \cup (IF Size = 1 THEN {<<x, y>> : x \in Vecs(2), y \in {<<3, -2>>, <<0, 3>>}} ELSE {})
   \cup {<<x, y>> : x \in Vecs(3), y \in {<<3, -2, 0>>} \cup (IF Size = 1 THEN {} ELSE {<<-2, 3, 3>>, <<7, 0, -2>>})}
Programs ==
  Map({"d", "i"} \X Pairs, LAMBDA q : PairP(q[1], q[2][1], q[2][2]))
  \o Map({"d", "i"} \X Pairs, LAMBDA q : AliasP(q[1], q[2][1], q[2][2]))
  \o Map({"d", "i"} \X UNION {Vecs(n) : n \in 0..3}, LAMBDA q : OneP(q[1], q[2]))
  \o Map(UNION {Vecs(n) : n \in 1..3} \ {<<0>>, <<0, 0>>, <<0, 0, 0>>}, NormP)
  \o Map(({"d", "i"} \X (0..4)) \X ({<<0, 0>>, <<-2, 3>>, <<1, 6>>} \X {-1, 0, 5}), LAMBDA q : RandP(q[1][1], q[1][2], q[2][1][1], q[2][1][2], q[2][2]))
  \o Map({<<x, y>> \in Pairs : Len(x) < 3}, LAMBDA q : MixP(q[1], q[2]))
  \o Map({"d", "i"} \X ((0..3) \X (0..3)), LAMBDA q : SizeP(q[1], q[2][1], q[2][2]))

(* laws of the algebra, whenever the operands of a program are there *)
Law ==
  (pc = 4 /\ IsVec(heap, "x") /\ IsVec(heap, "y") /\ IsVec(heap, "z") /\ LenOf(heap, "x") = LenOf(heap, "y") /\ heap["x"].t = heap["y"].t) =>
     LET h == heap
         t == h["x"].t
         x == VecOf(h, "x")
         y == VecOf(h, "y")
         E(g, op, a) == Eff(g, "vec", op, [t |-> t] @@ a, NoEvent)
         dot(g, p, q) == E(g, "dot", [x |-> p, y |-> q, form |-> "mem"]).r
         after(g, f, al, p, q) == E(g, "axpy", [x |-> p, y |-> q, al |-> al, form |-> f]).h
     IN /\ dot(h, "x", "y") = dot(h, "y", "x")
        /\ after(h, "add", 3, "x", "y") = after(h, "sub", -3, "x", "y")
        /\ after(after(h, "add", 3, "x", "y"), "sub", 3, "x", "y") = h
        /\ after(h, "set", 1, "x", "y")["x"].v = y
        /\ dot(after(h, "add", 2, "x", "y"), "x", "y")[1] = dot(h, "x", "y")[1] + 2 * dot(h, "y", "y")[1]      \* linear
        /\ E(h, "expr", [x |-> "x", y |-> "y", z |-> "e", form |-> "add"]).h["e"] = E(h, "expr", [x |-> "y", y |-> "x", z |-> "e", form |-> "add"]).h["e"]
        /\ dot(h, "x", "y")[1] * dot(h, "x", "y")[1] <= dot(h, "x", "x")[1] * dot(h, "y", "y")[1]               \* Cauchy-Schwarz
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
