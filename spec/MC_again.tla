------------------------------ MODULE MC_again ------------------------------
(* No history (C23): one object of every kind; every call p that makes or   *)
(* reports something, made before and after every other call q, q the edits *)
(* of other objects and p itself included.                                  *)
EXTENDS SmallMats
CONSTANTS Rounds

M33 == Csr(3, 3, [q \in Cells(3, 3) |-> IF q \in {<<0, 2>>, <<2, 1>>} THEN ABSENT ELSE CellVal(q[1], q[2])], "down")
M32 == Csr(3, 2, [q \in Cells(3, 2) |-> IF q = <<1, 0>> THEN ABSENT ELSE IF q = <<2, 1>> THEN 0 ELSE CellVal(q[1], q[2]) - 1], "up")
Path == Csr(4, 4, [q \in Cells(4, 4) |-> IF Abs(q[1] - q[2]) = 1 THEN 1 ELSE ABSENT], "up")
Spd(n) == Csr(n, n, [q \in Cells(n, n) |-> IF q[1] = q[2] THEN n + 1 ELSE -1], "down")
Add(k, z, i, j, v) == C(k, "add", [t |-> "d", A |-> z, form |-> "one", i |-> i, j |-> j, val |-> v])
ItNew(ty, z, M) == C("it", "new", [ty |-> ty, A |-> "P", M |-> M, z |-> z, dot |-> 0, form |-> "full", verbose |-> 0, max |-> 400, rel |-> 14, abs |-> 12])
Put1(z, fmt, t, c) == C("file", "put", [z |-> z, fmt |-> fmt, t |-> t, sym |-> 0, c |-> c, num |-> "plain", sep |-> "sp", nl |-> 1, banner |-> 1])
Tok(s, d, c) == [s |-> s, d |-> d, c |-> c]
Setup ==
  <<VecOp("d", "x", <<2, -1, 4>>), VecOp("d", "y", <<3, 0, -2>>), VecOp("i", "n", <<1, -5, 2>>), VecOp("d", "r2", <<24, -48>>), VecOp("d", "r3", <<10, -65, 85>>), VecOp("d", "x2", <<1, 3>>),
    New("d", "A", M33), New("d", "B", M32), New("i", "I", M33), DnNew("D", 3, 3, DnVals(3, 3)), DnNew("E", 3, 2, DnVals(3, 2)), DnNew("S", 2, 2, <<2, 1, 1, 3>>),
    C("coo", "new", [t |-> "d", z |-> "K", form |-> "rc", r |-> 3, c |-> 3]), Add("coo", "K", 0, 1, 3), Add("coo", "K", 0, 1, -1), Add("coo", "K", 2, 0, 5),
    C("lil", "new", [t |-> "d", z |-> "L", form |-> "rc", r |-> 3, c |-> 3]), Add("lil", "L", 1, 1, 3), Add("lil", "L", 1, 1, 2), Add("lil", "L", 0, 2, 0),
    C("bm", "new", [t |-> "d", z |-> "M", form |-> "rc", ro |-> <<0, 3, 5>>, co |-> <<0, 3>>]), C("bm", "setblock", [t |-> "d", A |-> "M", i |-> 0, j |-> 0, B |-> "A", form |-> "copy"]),
    C("bo", "new", [z |-> "O", form |-> "rc", ro |-> <<0, 3, 6>>, co |-> <<0, 3, 5>>]), C("bo", "setblock", [A |-> "O", i |-> 0, j |-> 0, B |-> "K"]), C("bo", "setblock", [A |-> "O", i |-> 1, j |-> 1, B |-> "B"]),
    New("d", "P", Spd(3)), New("d", "Q", Spd(2)), C("sd", "new", [A |-> "P", z |-> "sd3", form |-> "copy"]), C("sd", "new", [A |-> "Q", z |-> "sd2", form |-> "copy"]),
    ItNew("cg", "cg", ""), ItNew("cg", "pcg", "P"), ItNew("minres", "mr", ""), ItNew("pminres", "pm", "P"), C("eig", "new", [z |-> "eig"]), C("eig", "newpair", [z |-> "ep"]),
    New("d", "G", Path), New("i", "H", Csr(2, 2, [q \in Cells(2, 2) |-> 1], "up")), Put1("fc", "coo", "d", <<<<0, 1, 5>>, <<2, 0, -1>>>>), Put1("fv", "text", "d", <<<<4, 5>>>>), Put1("fm", "mtx", "d", <<<<2, 2, 1>>, <<1, 2, 7>>>>),
    \* what the edits change
    VecOp("d", "vv", <<1, 2, 3>>), VecOp("d", "ve", Zeros(3)), New("d", "va", M33), DnNew("vd", 3, 3, DnVals(3, 3)), ArrNew("ws", <<-1, -1, -1>>), DnNew("vo", 1, 2, <<8, 9>>),
    C("coo", "new", [t |-> "d", z |-> "vk", form |-> "rc", r |-> 2, c |-> 2])>>

Just(c) == <<c>>
V(op, a) == Just(C("vec", op, a @@ [t |-> "d"]))
S(op, a) == Just(C("sp", op, a @@ [t |-> "d"]))
D(op, a) == Just(C("dn", op, a))
Sk(m, op, a) == Just(Skip(m, op, a))
OpA(A, x, tr) == Just(C("op", "apply", [A |-> A, x |-> x, tr |-> tr, form |-> "ret", z |-> "z"]))
Solve(s) == <<VecOp("d", "z", <<1, 1, 1>>), Skip("it", "solve", [S |-> s, b |-> "r3", x |-> "z", trunc |-> 0])>>
EigS(A, mx, rel) == Sk("eig", "solve", [E |-> "eig", A |-> A, rel |-> rel, max |-> mx, form |-> "out", z |-> "ep"])
Part(A, t, n) == Sk("pt", "part", [t |-> t, A |-> A, n |-> n, form |-> "all", ub |-> 4, contig |-> 0, weighted |-> 0])
Read(f, fmt, sym) == <<C("file", "read", [x |-> f, z |-> "z", fmt |-> fmt, t |-> "d", sym |-> sym, dflt |-> 0])>>
Write(x, fmt) == <<C("file", "write", [x |-> x, z |-> "f", fmt |-> fmt, t |-> "d", sym |-> 0, form |-> "sp", dflt |-> 0]), C("file", "read", [x |-> "f", z |-> "z", fmt |-> fmt, t |-> "d", sym |-> 0, dflt |-> 0])>>
Pr(op, x) == Just(C("print", op, [x |-> x, t |-> "d", label |-> "L", to |-> "cout", prec |-> 0]))
Pure ==
  <<V("expr", [x |-> "x", y |-> "y", z |-> "z", form |-> "add"]), V("expr", [x |-> "x", val |-> 3, z |-> "z", form |-> "vx"]), V("dot", [x |-> "x", y |-> "y", form |-> "mem"]),
    V("red", [x |-> "x", form |-> "absmax"]), V("red", [x |-> "n", form |-> "sum", t |-> "i"]), V("sub", [x |-> "x", idx |-> <<2, 0, 2>>, z |-> "z", form |-> "ret"]), V("list", [x |-> "y", form |-> "it"]), V("eq", [u |-> "d", x |-> "x", y |-> "y"]),
    <<VecOp("d", "z", <<0, 0, 0>>), Skip("vec", "rand", [t |-> "d", x |-> "z", lo |-> -1, hi |-> 3, seed |-> 5, form |-> "mem"])>>, <<VecOp("d", "z", <<0, 0, 0>>), Skip("vec", "rand", [t |-> "d", x |-> "z", lo |-> 0, hi |-> 9, seed |-> 6, form |-> "free"])>>,
    <<VecOp("i", "z", <<0, 0, 0>>), Skip("vec", "rand", [t |-> "i", x |-> "z", lo |-> -9, hi |-> 90, seed |-> 5, form |-> "mem"])>>, <<VecOp("i", "z", <<0, 0, 0>>), Skip("vec", "rand", [t |-> "i", x |-> "z", lo |-> 0, hi |-> 99, seed |-> 0, form |-> "free"])>>,
    S("acc", [A |-> "A", form |-> "sum"]), S("acc", [A |-> "A", form |-> "diag"]), S("todense", [A |-> "B", z |-> "z", tr |-> 0, form |-> "ret"]), S("transpose", [u |-> "d", A |-> "B", z |-> "z"]), S("transpose", [u |-> "i", A |-> "I", z |-> "z", t |-> "i"]),
    S("mul", [u |-> "d", A |-> "A", B |-> "B", z |-> "z", form |-> "plain"]), S("mul", [u |-> "d", A |-> "P", B |-> "A", z |-> "z", form |-> "plain"]), S("mul", [u |-> "d", A |-> "A", B |-> "A", z |-> "z", w |-> "ws", form |-> "marker"]),
    S("submat", [A |-> "A", rows |-> <<2, 0>>, cols |-> <<1, 2>>, z |-> "z", form |-> "plain"]), S("submat", [A |-> "B", rows |-> <<1, 1>>, cols |-> <<0>>, z |-> "z", form |-> "plain"]),
    S("muld", [A |-> "A", B |-> "E", z |-> "z", form |-> "mult"]), S("expr", [u |-> "d", A |-> "A", z |-> "z", form |-> "xv", val |-> -2]),
    D("mul", [A |-> "D", B |-> "E", z |-> "z", form |-> "ab"]), D("mul", [A |-> "E", B |-> "D", z |-> "z", form |-> "atb"]), D("transpose", [A |-> "E", z |-> "z", form |-> "plain"]), D("acc", [A |-> "D", form |-> "max"]),
    D("get", [A |-> "D", rows |-> <<2, 0>>, cols |-> <<1, 1>>, z |-> "z", form |-> "list"]), D("expr", [A |-> "D", B |-> "vd", z |-> "z", form |-> "add"]), D("eq", [A |-> "D", B |-> "vd"]),
    Sk("dn", "inv", [A |-> "S", z |-> "vo", form |-> "out"]), Sk("dn", "qr", [A |-> "E", z |-> "vo", form |-> "out"]), Sk("dn", "svd", [A |-> "E", z |-> "vo", form |-> "out"]),
    OpA("A", "x", 0), OpA("A", "x", 1), OpA("D", "x", 0), OpA("K", "x", 1), OpA("L", "x", 0), OpA("M", "x", 0), OpA("O", "r5", 0), OpA("B", "x2", 0),
    Just(C("op", "inner", [A |-> "A", x |-> "x", y |-> "y"])), Just(C("coo", "tosparse", [t |-> "d", A |-> "K", z |-> "z", u |-> ""])), Just(C("lil", "tosparse", [t |-> "d", A |-> "L", z |-> "z", u |-> ""])),
    Just(C("coo", "todense", [t |-> "d", A |-> "K", z |-> "z", form |-> "ret"])), Just(C("bm", "combine", [t |-> "d", A |-> "M", z |-> "z"])), Just(C("bm", "transpose", [t |-> "d", A |-> "M", z |-> "z"])),
    Solve("cg"), Solve("pcg"), Solve("mr"), Solve("pm"), Sk("sd", "solve", [S |-> "sd3", b |-> "r3", tr |-> 0, form |-> "ret", z |-> "z"]), Sk("sd", "solve", [S |-> "sd2", b |-> "r2", tr |-> 1, form |-> "ret", z |-> "z"]),
    EigS("P", -1, 8), EigS("S", -1, 8), EigS("P", 1, 8), Part("G", "d", 2), Part("G", "d", 3), Part("H", "i", 2),
    Read("fc", "coo", 0), Read("fc", "coo", 1), Read("fv", "text", 0), Read("fm", "mtx", 0), Write("A", "csr"), Write("B", "mtx"),
    Pr("vec", "x"), Pr("list", "A"), Pr("dense", "D"), Pr("dense", "B"), Pr("blocks", "M"),
    <<C("ap", "new", [z |-> "z", form |-> "argv", argv |-> <<Tok("--n", 2, "str"), Tok("5", 0, "int")>>]), C("ap", "parse", [x |-> "z", ty |-> "int", flag |-> "--n", def |-> "7"])>>>>
(* edits of objects no call above reads (or reads only as what it is told to) *)
Edits ==
  <<V("fill", [x |-> "vv", val |-> 6, form |-> "view"]), V("sca", [x |-> "vv", val |-> -1, form |-> "mul"]), V("axpy", [x |-> "ve", y |-> "x", al |-> 2, form |-> "set"]), V("setsize", [x |-> "ve", n |-> 3]),
    S("sort", [A |-> "va"]), S("sca", [u |-> "d", A |-> "va", form |-> "mul", val |-> -1]), S("elimzeros", [A |-> "va"]), S("permcols", [A |-> "va", perm |-> <<1, 2, 0>>]), S("elim", [A |-> "va", form |-> "row", i |-> 1]),
    D("sca", [A |-> "vd", form |-> "mul", val |-> -1]), D("setsize", [A |-> "vo", form |-> "sqv", r |-> 4, val |-> 1]), D("put", [A |-> "vd", i |-> 1, j |-> 2, val |-> 5, form |-> "at"]),
    Just(Add("coo", "vk", 1, 0, 1)), Just(C("coo", "perm", [t |-> "d", A |-> "vk", form |-> "both", rows |-> <<1, 0>>, cols |-> <<0, 1>>])),
    Just(C("it", "set", [S |-> "cg", form |-> "max", max |-> 400])), Just(Copy("A", "va")), Just(Copy("eig", "e2")), Just(C("vec", "arrset", [t |-> "i", x |-> "ws", i |-> 1, val |-> -1]))>>
Others == Pure \o Edits
(* p, q1, p, q2, p ...: in the second round the other way round *)
Prog(k, r) ==
  Setup \o <<VecOp("d", "r5", <<1, 2, 3, 4, 5>>)>>
  \o Flat([i \in 1..Len(Others) |-> Pure[k] \o Others[IF r = 1 THEN i ELSE Len(Others) + 1 - i]]) \o Pure[k]
Programs == Flat([r \in 1..Rounds |-> [k \in 1..Len(Pure) |-> Prog(k, r)]])
Init == PInit(Programs)
Next == PNext(Programs)
Spec == Init /\ [][Next]_progvars
=============================================================================
