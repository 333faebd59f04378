------------------------------ MODULE VecArea ------------------------------
(* Vectors (owning), views (aliasing), raw arrays; C08, C09, part of C10.   *)
EXTENDS Base

VecOps == {"new", "newval", "default", "from", "fromview", "arr", "arrset", "view", "viewptr", "viewarr",
           "viewdefault", "setview", "assign", "fill", "swapview", "setsize", "put", "get", "list", "sub",
           "axpy", "comb", "addz", "ew", "ewmix", "sca", "expr", "dot", "red", "eq", "eqpert", "rand",
           "normalize", "subavg"}

View(t, o, f, off, n) == [k |-> "view", t |-> t, o |-> o, f |-> f, off |-> off, n |-> n]
(* a view of a section of slot x, resolved to the owner of the storage *)
ViewOf(h, x, off, n) ==
  IF h[x].k = "view" THEN View(h[x].t, h[x].o, h[x].f, h[x].off + off, n)
  ELSE View(h[x].t, x, "v", off, n)
NullView(t) == View(t, "", "v", 0, 0)

SameLen(h, x, y) == LenOf(h, x) = LenOf(h, y)

VecPre(h, op, a) ==
  CASE op \in {"new", "newval"} -> a.n >= 0
    [] op \in {"default", "from", "arr", "viewdefault"} -> TRUE
    [] op = "fromview" -> IsVecT(h, a.x, a.t)
    [] op = "arrset" -> IsK(h, a.x, {"arr"}) /\ a.i >= 0 /\ a.i < Len(h[a.x].v)
    [] op = "view" -> IsVecT(h, a.x, a.t)
    [] op = "viewptr" -> IsVecT(h, a.x, a.t) /\ a.off >= 0 /\ a.n >= 0 /\ a.off + a.n <= LenOf(h, a.x)
    [] op = "viewarr" -> IsK(h, a.x, {"arr"}) /\ a.off >= 0 /\ a.n >= 0 /\ a.off + a.n <= Len(h[a.x].v)
    [] op = "setview" -> IsK(h, a.x, {"vec"}) /\ IsVecT(h, a.y, a.t) /\ (~Pinned(h, a.x) \/ SameLen(h, a.x, a.y))
    [] op = "assign" -> IsVecT(h, a.x, a.t) /\ IsVecT(h, a.y, a.t) /\ SameLen(h, a.x, a.y)
    [] op = "fill" -> IsVecT(h, a.x, a.t)
    [] op = "swapview" -> IsK(h, a.x, {"view"}) /\ IsK(h, a.y, {"view"})
    [] op = "setsize" -> IsK(h, a.x, {"vec"}) /\ a.n >= 0 /\ (~Pinned(h, a.x) \/ a.n = LenOf(h, a.x))
    [] op \in {"put", "get"} -> IsVecT(h, a.x, a.t) /\ a.i >= 0 /\ a.i < LenOf(h, a.x)
    [] op = "list" -> IsVecT(h, a.x, a.t)
    [] op = "sub" -> IsVecT(h, a.x, a.t) /\ InRange(a.idx, LenOf(h, a.x)) /\ (a.form = "out" => IsK(h, a.z, {"vec"}) /\ ~Pinned(h, a.z))
    [] op = "axpy" -> IsVecT(h, a.x, a.t) /\ IsVecT(h, a.y, a.t) /\ SameLen(h, a.x, a.y)
    [] op \in {"comb", "addz"} -> /\ IsVecT(h, a.x, a.t) /\ IsVecT(h, a.y, a.t) /\ IsVecT(h, a.z, a.t)
                                  /\ SameLen(h, a.x, a.y) /\ SameLen(h, a.x, a.z)
    [] op = "ew" -> /\ IsVecT(h, a.x, a.t) /\ IsVecT(h, a.y, a.t) /\ SameLen(h, a.x, a.y)
                    /\ (a.form = "div" => \A i \in 1..LenOf(h, a.y) : VecOf(h, a.y)[i] # 0)
    [] op = "ewmix" -> IsVecT(h, a.x, "d") /\ IsVecT(h, a.y, "i") /\ SameLen(h, a.x, a.y)
    [] op = "sca" -> IsVecT(h, a.x, a.t) /\ (a.form = "div" => a.val # 0)
    [] op = "expr" -> /\ IsK(h, a.x, {"vec"}) /\ h[a.x].t = a.t
                      /\ CASE a.form \in {"add", "sub"} -> IsK(h, a.y, {"vec"}) /\ h[a.y].t = a.t /\ SameLen(h, a.x, a.y)
                           [] a.form = "xd" -> a.val # 0
                           [] a.form = "dx" -> \A i \in 1..LenOf(h, a.x) : h[a.x].v[i] # 0
                           [] OTHER -> TRUE
    [] op = "dot" -> IsVecT(h, a.x, a.t) /\ IsVecT(h, a.y, a.t) /\ SameLen(h, a.x, a.y)
    [] op = "red" -> IsVecT(h, a.x, a.t) /\ (a.form \in {"max", "min", "absmax", "absmin", "mean"} => LenOf(h, a.x) > 0)
    [] op = "eq" -> IsVecT(h, a.x, a.t) /\ IsVecT(h, a.y, a.u)
    [] op = "eqpert" -> IsVecT(h, a.x, "d") /\ a.i >= 0 /\ a.i < LenOf(h, a.x)
    [] op = "rand" -> IsVecT(h, a.x, a.t) /\ a.lo <= a.hi
    [] op = "normalize" -> IsVecT(h, a.x, "d") /\ \E i \in 1..LenOf(h, a.x) : VecOf(h, a.x)[i] # 0
    [] op = "subavg" -> IsVecT(h, a.x, "d") /\ LenOf(h, a.x) > 0

Ew(t, f, x, y) ==                                  \* entrywise, at scale F
  CASE f = "mul" -> Fit(t, x * y)
    [] f = "div" -> DivT(t, x, y)
    [] f = "add" -> x + y
    [] f = "sub" -> x - y

ZipW(x, y, f(_, _)) == [i \in 1..Len(x) |-> f(x[i], y[i])]
MapS(x, f(_)) == [i \in 1..Len(x) |-> f(x[i])]

Reduce(t, f, x) ==
  LET n == Len(x) IN
  CASE f \in {"sum", "sumf"} -> SumSeq(x)
    [] f = "mean" -> LET s == SumSeq(x) IN IF s % n = 0 THEN s \div n ELSE FRAC
    [] f = "max" -> FoldLeft(Max2, x[1], x)
    [] f = "min" -> FoldLeft(Min2, x[1], x)
    [] f = "absmax" -> FoldLeft(Max2, Abs(x[1]), MapS(x, Abs))
    [] f = "absmin" -> FoldLeft(Min2, Abs(x[1]), MapS(x, Abs))
    [] f \in {"l2", "l2f"} -> ExactSqrt(SumSeq(MapS(x, LAMBDA q : q * q)))
    [] f = "size" -> n

(* r (scale 1000, then the distance of its length from 1 in 1e-12) is x divided by its Euclidean norm;
   the vector handed over is x * 2^e, whose direction is that of x *)
IsNormalized(x, r) ==
  LET s == SumSeq(MapS(x, LAMBDA q : q * q)) IN
  /\ Len(r) = Len(x) + 1
  /\ r[Len(r)] <= 100
  /\ \A i \in 1..Len(x) : /\ Abs(r[i]) <= 1001
                          /\ Abs(r[i] * r[i] * s - x[i] * x[i] * 1000000) <= (Abs(r[i]) + 1) * s
                          /\ (x[i] > 0 => r[i] >= 0) /\ (x[i] < 0 => r[i] <= 0) /\ (x[i] = 0 => r[i] = 0)

VecEff(h, op, a, e) ==
  CASE op = "new" -> Do(Put(h, a.z, Vec(a.t, Zeros(a.n))))
    [] op = "newval" -> Do(Put(h, a.z, Vec(a.t, Const(a.n, a.val))))
    [] op = "default" -> Do(Put(h, a.z, Vec(a.t, <<>>)))
    [] op = "from" -> Do(Put(h, a.z, Vec(a.t, a.v)))
    [] op = "fromview" -> Do(Put(h, a.z, Vec(a.t, VecOf(h, a.x))))
    [] op = "arr" -> Do(Put(h, a.z, Arr(a.t, a.v)))
    [] op = "arrset" -> Do([h EXCEPT ![a.x] = [@ EXCEPT !.v = [@ EXCEPT ![a.i + 1] = a.val]]])
    [] op = "view" -> Do(Put(h, a.z, ViewOf(h, a.x, 0, LenOf(h, a.x))))
    [] op = "viewptr" -> Do(Put(h, a.z, ViewOf(h, a.x, a.off, a.n)))
    [] op = "viewarr" -> Do(Put(h, a.z, View(a.t, a.x, "v", a.off, a.n)))
    [] op = "viewdefault" -> Do(Put(h, a.z, NullView(a.t)))
    [] op = "setview" -> Do(Put(h, a.x, Vec(a.t, VecOf(h, a.y))))
    [] op = "assign" -> Do(SetVec(h, a.x, VecOf(h, a.y)))
    [] op = "fill" -> Do(SetVec(h, a.x, Const(LenOf(h, a.x), a.val)))
    [] op = "swapview" -> Do([h EXCEPT ![a.x] = h[a.y], ![a.y] = h[a.x]])
    [] op = "setsize" ->
         LET v == h[a.x].v
             new == IF "val" \in DOMAIN a THEN a.val ELSE 0
         IN Do([h EXCEPT ![a.x] = [@ EXCEPT !.v = [i \in 1..a.n |-> IF i <= Len(v) THEN v[i] ELSE new]]])
    [] op = "put" -> Do(SetVec(h, a.x, [VecOf(h, a.x) EXCEPT ![a.i + 1] = a.val]))
    [] op = "get" -> Ret(h, VecOf(h, a.x)[a.i + 1])
    [] op = "list" -> Ret(h, VecOf(h, a.x))
    [] op = "sub" -> LET x == VecOf(h, a.x) IN Do(Put(h, a.z, Vec(a.t, [i \in 1..Len(a.idx) |-> x[a.idx[i] + 1]])))
    [] op = "axpy" ->
         LET x == VecOf(h, a.x)
             y == VecOf(h, a.y)
             al == IF a.form \in {"add1", "sub1", "set1"} THEN One ELSE a.al
             new == CASE a.form \in {"add", "add1"} -> ZipW(x, y, LAMBDA p, q : Fit(a.t, p * F + al * q))
                      [] a.form \in {"sub", "sub1"} -> ZipW(x, y, LAMBDA p, q : Fit(a.t, p * F - al * q))
                      [] OTHER -> ZipW(x, y, LAMBDA p, q : Fit(a.t, al * q))
         IN Ret(SetVec(h, a.x, new), TRUE)
    [] op = "comb" ->
         LET x == VecOf(h, a.x)
             y == VecOf(h, a.y)
             z == VecOf(h, a.z)
         IN Do(SetVec(h, a.z, [i \in 1..Len(z) |-> Fit(a.t, a.al * x[i] + a.be * y[i] + a.ga * z[i])]))
    [] op = "addz" ->
         LET x == VecOf(h, a.x)
             y == VecOf(h, a.y)
         IN Do(SetVec(h, a.z, [i \in 1..Len(x) |-> IF a.form = "sub" THEN x[i] - y[i] ELSE x[i] + y[i]]))
    [] op = "ew" -> Do(SetVec(h, a.x, ZipW(VecOf(h, a.x), VecOf(h, a.y), LAMBDA p, q : Ew(a.t, a.form, p, q))))
    [] op = "ewmix" -> Do(SetVec(h, a.x, ZipW(VecOf(h, a.x), VecOf(h, a.y), LAMBDA p, q : p + q)))
    [] op = "sca" -> Do(SetVec(h, a.x, MapS(VecOf(h, a.x), LAMBDA p : Ew(a.t, a.form, p, a.val))))
    [] op = "expr" ->
         LET x == h[a.x].v
             new == CASE a.form = "add" -> ZipW(x, h[a.y].v, LAMBDA p, q : p + q)
                      [] a.form = "sub" -> ZipW(x, h[a.y].v, LAMBDA p, q : p - q)
                      [] a.form \in {"xv", "vx"} -> MapS(x, LAMBDA p : Fit(a.t, p * a.val))
                      [] a.form = "xd" -> MapS(x, LAMBDA p : DivT(a.t, p, a.val))
                      [] a.form = "dx" -> MapS(x, LAMBDA p : DivT(a.t, a.val, p))
         IN Do(Put(h, a.z, Vec(a.t, new)))
    [] op = "dot" ->
         LET x == VecOf(h, a.x)
             y == VecOf(h, a.y)
         IN Ret(h, Descale(SumSeq(ZipW(x, y, LAMBDA p, q : p * q))))
    [] op = "red" -> Ret(h, Reduce(a.t, a.form, VecOf(h, a.x)))
    [] op = "eq" -> Ret(h, VecOf(h, a.x) = VecOf(h, a.y))
    [] op = "eqpert" -> Ret(h, a.e <= -13)          \* documented tolerance 1e-12
    [] op = "rand" ->
         LET n == LenOf(h, a.x)
             u == IF a.t = "i" THEN 1 ELSE 1000000
             key == <<"rand", a.t, a.lo, a.hi, a.seed, n>>
             r == e.r
         IN [h |-> SetVec(h, a.x, Zeros(n)), r |-> <<r>>,
             m |-> IF a.seed >= 0 THEN (key :> r) @@ memo ELSE memo,
             ok |-> /\ Len(r) = n
                    /\ \A i \in 1..n : r[i] >= a.lo * u /\ r[i] <= a.hi * u
                    /\ (a.seed >= 0 /\ key \in DOMAIN memo) => memo[key] = r]
    [] op = "normalize" ->
         [h |-> SetVec(h, a.x, Zeros(LenOf(h, a.x))), r |-> <<e.r>>, m |-> memo, ok |-> IsNormalized(VecOf(h, a.x), e.r)]
    [] op = "subavg" ->
         LET x == VecOf(h, a.x)
             s == SumSeq(x)
             n == Len(x)
         IN Do(SetVec(h, a.x, MapS(x, LAMBDA p : IF s % n = 0 THEN p - s \div n ELSE FRAC)))

-----------------------------------------------------------------------------
(* Lifetime: copy, move, assignment, swap, destruction of any object (C10) *)
LifePre(h, op, a) ==
  CASE op = "copy" -> Has(h, a.x) /\ h[a.x].k \notin {"moved", "view"}
    [] op = "move" -> Has(h, a.x) /\ h[a.x].k # "moved" /\ ~Pinned(h, a.x)
    [] op = "assign" -> Has(h, a.x) /\ Has(h, a.y) /\ h[a.y].k # "moved" /\ ~Pinned(h, a.x)
    [] op = "massign" -> Has(h, a.x) /\ Has(h, a.y) /\ h[a.y].k # "moved" /\ a.x # a.y /\ ~Pinned(h, a.x) /\ ~Pinned(h, a.y)
    [] op = "swap" -> Has(h, a.x) /\ Has(h, a.y) /\ ~Pinned(h, a.x) /\ ~Pinned(h, a.y)
    [] op = "del" -> Has(h, a.x) /\ ~Pinned(h, a.x)

LifeEff(h, op, a, e) ==
  CASE op = "copy" -> Do(Put(h, a.z, h[a.x]))
    [] op = "move" -> Do(Put(Put(h, a.x, Moved), a.z, h[a.x]))
    [] op = "assign" -> Do(Put(h, a.x, h[a.y]))
    [] op = "massign" -> Do(Put(Put(h, a.y, Moved), a.x, h[a.y]))
    [] op = "swap" -> Do(Put(Put(h, a.x, h[a.y]), a.y, h[a.x]))
    [] op = "del" -> Do(Drop(h, a.x))
=============================================================================
