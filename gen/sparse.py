"""Sparse matrices."""
from . import vec


def csr(ep, t, r, c, dens=None):
    g = ep.rng
    dens = g.choice([0.15, 0.4, 0.6, 0.9]) if dens is None else dens
    shuffle = ep.chance(0.6)
    p, j, x = [0], [], []
    if r * c > 1500:
        dens = min(dens, 300 / (r * c))
    for i in range(r):
        cols = [q for q in range(c) if g.random() < dens] if not ep.chance(0.1) else []
        if shuffle:
            g.shuffle(cols)
        j += cols
        x += [0 if ep.chance(0.05) else ep.val(t, nz=True) for _ in cols]
        p.append(len(j))
    return p, j, x


def new_sp(ep, t=None, r=None, c=None, name=None, dens=None):
    t = t or ("i" if ep.chance(0.25) else "d")
    r = ep.dim() if r is None else r
    c = ep.dim() if c is None else c
    z = name or ep.new("A")
    p, j, x = csr(ep, t, r, c, dens)
    ep.emit("sp", "new", t=t, z=z, form="csr", p=p, j=j, x=x, r=r, c=c)
    ep.S[z] = dict(k="sp", t=t, r=r, c=c, nnz=len(j))
    return z


def new_dn(ep, r=None, c=None, name=None):
    r = ep.dim() if r is None else r
    c = ep.dim() if c is None else c
    z = name or ep.new("D")
    ep.emit("dn", "new", z=z, form="data", r=r, c=c, v=ep.vals(r * c))
    ep.S[z] = dict(k="dn", r=r, c=c)
    return z


def any_sp(ep, pred=lambda o: True, **mk):
    c = ep.find(lambda o: o["k"] == "sp" and pred(o))
    if c and ep.chance(0.9):
        return ep.pick(c)
    return new_sp(ep, **mk)


def any_dn(ep, pred=lambda o: True, p=0.8, **mk):
    c = ep.find(lambda o: o["k"] == "dn" and pred(o))
    if c and ep.chance(p):
        return ep.pick(c)
    return new_dn(ep, **mk)


def square_sp(ep):
    n = ep.dim()
    if n > 16 and ep.chance(0.5):
        return new_sp(ep, r=n, c=n)
    return any_sp(ep, lambda o: o["r"] == o["c"], r=n, c=n)


def out_dn(ep, avoid=()):
    """a dense output argument with arbitrary previous contents"""
    c = [s for s in ep.kinds("dn") if s not in avoid and not ep.held(s)]
    z = ep.pick(c) if c and ep.chance(0.7) else new_dn(ep)
    ep.drop_views(z)
    return z


def vec_of(ep, n, t="d"):
    if ep.vast:
        z = ep.new("v")
        ep.emit("vec", "from", t=t, z=z, v=[ep.pick([-1, 0, 1, 1]) for _ in range(n)], form="std")
        ep.S[z] = dict(k="vec", t=t, n=n)
        return z
    c = ep.find(lambda o: o["k"] in vec.VK and o["t"] == t and o["n"] == n)
    return ep.pick(c) if c and ep.chance(0.7) else vec.new_vec(ep, t, n)


def exact_scale(ep, t):
    return ep.pick([1, -1, 2, -2, 3] if t == "i" else [1, -1, 2, -2, 4]) * ep.F


OPS = {
    "new": 4, "newalt": 2, "acc": 6, "viewidx": 1, "setdata": 1, "todense": 3, "sort": 2, "mulv": 5, "muld": 4, "mul": 5, "transpose": 3,
    "submat": 5, "adddiag": 2, "sca": 3, "expr": 2, "scale": 5, "permcols": 2, "elim": 6, "elimzeros": 2,
}


def step(ep, ops=None, weights=OPS):
    r = ep.rng
    names = ops or list(weights)
    op = r.choices(names, [weights.get(o, 1) for o in names])[0]
    if op == "new":
        new_sp(ep)
    elif op == "newalt":
        t = ep.pick("di")
        z = ep.new("A")
        f = ep.pick(["default", "size", "empty", "diag"])
        n, m = ep.dim(), ep.dim()
        if f == "default":
            ep.emit("sp", "new", t=t, z=z, form=f)
            n = m = 0
        elif f == "size":
            ep.emit("sp", "new", t=t, z=z, form=f, r=n)
            m = n
        elif f == "empty":
            ep.emit("sp", "new", t=t, z=z, form=f, r=n, c=m)
        else:
            ep.emit("sp", "new", t=t, z=z, form=f, x=ep.vals(n, t))
            m = n
        ep.S[z] = dict(k="sp", t=t, r=n, c=m)
    elif op == "acc":
        f = ep.pick(["rows", "cols", "nnz", "indptr", "indices", "data", "mindptr", "mindices", "mdata", "rowidx", "rowdata", "rowview",
                     "rowsize", "diag", "sum", "maxnorm"])
        if f == "diag":
            A = square_sp(ep)
        elif f.startswith("row") and f != "rows":
            A = any_sp(ep, lambda o: o["r"] > 0, r=ep.pdim())
        else:
            A = any_sp(ep)
        o = ep.S[A]
        a = dict(t=o["t"], A=A, form=f)
        if f in ("rowidx", "rowdata", "rowview", "rowsize"):
            a["i"] = r.randrange(o["r"])
        ep.emit("sp", "acc", **a)
    elif op == "viewidx":
        A = any_sp(ep, lambda o: o["r"] > 0, r=ep.pdim())
        if ep.F == 1:
            z = ep.new("w")
            ep.emit("sp", "viewidx", t=ep.S[A]["t"], A=A, i=r.randrange(ep.S[A]["r"]), z=z)
            ep.emit("vec", "list", t="i", x=z, form=ep.pick(["const", "size"]))
            ep.S[z] = dict(k="view", t="i", n=-1, o=A)
    elif op == "setdata":
        A = any_sp(ep, lambda o: o.get("nnz", 0) > 0)
        o = ep.S[A]
        if o.get("nnz", 0) > 0:
            ep.emit("sp", "setdata", t=o["t"], A=A, i=r.randrange(o["nnz"]), val=ep.val(o["t"]))
    elif op == "todense":
        A = any_sp(ep)
        o = ep.S[A]
        tr = ep.pick([0, 1])
        out = ep.chance(0.5)
        z = out_dn(ep) if out else ep.new("D")
        ep.emit("sp", "todense", t=o["t"], A=A, z=z, tr=tr, form="out" if out else "ret")
        ep.S[z] = dict(k="dn", r=o["c"] if tr else o["r"], c=o["r"] if tr else o["c"])
    elif op == "sort":
        A = new_sp(ep, r=r.randint(1, 3), c=r.randint(40, 200), dens=0.6) if ep.big == "huge" and ep.chance(0.6) else any_sp(ep)
        ep.drop_views(A)
        ep.emit("sp", "sort", t=ep.S[A]["t"], A=A)
    elif op == "mulv":
        A = any_sp(ep)
        o = ep.S[A]
        t = o["t"]
        tr = ep.pick([0, 1])
        f = ep.pick(["ret", "view", "view"] + ([] if tr else ["op"]))
        u = ep.pick("di") if ep.F == 1 else ("d" if t == "d" or f == "view" else "i")
        if f == "op" or (f == "ret" and ep.F != 1):
            u = t
        nin, nout = (o["r"], o["c"]) if tr else (o["c"], o["r"])
        x = vec_of(ep, nin, u)
        a = dict(t=t, u=u, v=t, A=A, x=x, tr=tr, form=f)
        if f == "view":
            a["v"] = ep.pick("di") if ep.F == 1 else "d"
            cand = [s for s in ep.find(lambda p: p["k"] in vec.VK and p["t"] == a["v"] and p["n"] == nout) if not shares(ep, s, x)]
            a["z"] = ep.pick(cand) if cand and ep.chance(0.7) else vec.new_vec(ep, a["v"], nout)
            ep.emit("sp", "mulv", **a)
        else:
            a["z"] = ep.new("v")
            ep.emit("sp", "mulv", **a)
            ep.S[a["z"]] = dict(k="vec", t=t, n=nout)
    elif op == "muld":
        A = any_sp(ep)
        o = ep.S[A]
        f = ep.pick(["mult", "multat", "multct"])
        k = o["r"] if f == "multat" else o["c"]
        n = o["c"] if f == "multat" else o["r"]
        Bm = any_dn(ep, lambda q: q["r"] == k, r=k)
        if n * ep.S[Bm]["c"] > 3000:
            Bm = new_dn(ep, k, r.randint(1, 4))
        out = ep.chance(0.5)
        z = out_dn(ep, (Bm,)) if out else ep.new("D")
        ep.emit("sp", "muld", t=o["t"], A=A, B=Bm, z=z, form=f + ("-out" if out else ""))
        cb = ep.S[Bm]["c"]
        ep.S[z] = dict(k="dn", r=cb if f == "multct" else n, c=n if f == "multct" else cb)
    elif op == "mul":
        A = any_sp(ep)
        o = ep.S[A]
        Bm = any_sp(ep, lambda q: q["r"] == o["c"], r=o["c"])
        if ep.S[Bm]["r"] != o["c"]:
            return
        if o["r"] * ep.S[Bm]["c"] > 6000:
            Bm = new_sp(ep, r=o["c"], c=r.randint(1, 8))
        u = ep.S[Bm]["t"]
        a = dict(t=o["t"], u=u, A=A, B=Bm, z=ep.new("A"), form="plain")
        if ep.chance(0.5):
            a["form"] = "marker"
            c = ep.kinds("arr", t="i")
            if c and ep.chance(0.8):
                a["w"] = ep.pick(c)
                ep.drop_views(a["w"])
            else:
                a["w"] = new_ws(ep)
            ep.S[a["w"]]["clean"] = False
            ep.S[a["w"]]["n"] = -1
        ep.emit("sp", "mul", **a)
        ep.S[a["z"]] = dict(k="sp", t="i" if o["t"] == "i" and u == "i" else "d", r=o["r"], c=ep.S[Bm]["c"])
    elif op == "transpose":
        A = any_sp(ep)
        o = ep.S[A]
        u = o["t"] if o["t"] == "d" and ep.F > 1 else ep.pick("di")
        z = ep.new("A")
        ep.emit("sp", "transpose", t=o["t"], u=u, A=A, z=z)
        ep.S[z] = dict(k="sp", t=u, r=o["c"], c=o["r"])
    elif op == "submat":
        A = any_sp(ep)
        o = ep.S[A]
        for _ in range(r.choice([1, 1, 2])):
            rows = [r.randrange(o["r"]) for _ in range(r.randint(0, o["r"] + 1))] if o["r"] else []
            cols = r.sample(range(o["c"]), r.randint(0, o["c"]))
            if ep.chance(0.2):
                rows = list(range(o["r"]))
            if ep.chance(0.2):
                cols = list(range(o["c"]))
            a = dict(t=o["t"], A=A, rows=rows, cols=cols, z=ep.new("A"), form="plain")
            if ep.chance(0.6):
                a["form"] = "marker"
                c = [w for w in ep.kinds("arr", t="i", clean=True) if ep.S[w]["n"] >= o["c"]]
                a["w"] = ep.pick(c) if c else new_ws(ep, o["c"] + r.choice([0, 0, 3, 8]), True)
            ep.emit("sp", "submat", **a)
            ep.S[a["z"]] = dict(k="sp", t=o["t"], r=len(rows), c=len(cols))
    elif op == "adddiag":
        A = square_sp(ep)
        o = ep.S[A]
        if ep.chance(0.5):
            ep.emit("sp", "adddiag", t=o["t"], A=A, form="val", val=ep.val(o["t"]))
        else:
            ep.emit("sp", "adddiag", t=o["t"], A=A, form="vec", x=ep.vals(o["r"], o["t"]))
    elif op == "sca":
        A = any_sp(ep)
        t = ep.S[A]["t"]
        u = ep.pick("di") if t == "i" or ep.F == 1 else "d"
        f = ep.pick(["mul", "mul", "div", "set"])
        if f == "div":
            v = ep.pick([1, -1, 2, -2] + ([3, 5] if t == "i" and u == "i" else [])) * ep.F
            if t == "d" or u == "d":
                ep.emit("sp", "sca", t=t, u=u, A=A, form="mul", val=2 * ep.F)
        elif f == "set":
            v = ep.val(u, nz=True)
            if t == "i":
                v = ep.val("i", nz=True)
        else:
            v = ep.val(u)
        ep.emit("sp", "sca", t=t, u=u, A=A, form=f, val=v)
    elif op == "expr":
        A = any_sp(ep)
        t = ep.S[A]["t"]
        u = ep.pick("di") if t == "i" or ep.F == 1 else "d"
        z = ep.new("A")
        ep.emit("sp", "expr", t=t, u=u, A=A, z=z, form=ep.pick(["xv", "vx"]), val=ep.val(u))
        ep.S[z] = dict(ep.S[A])
    elif op == "scale":
        A = any_sp(ep)
        o = ep.S[A]
        t = o["t"]
        f = ep.pick(["rows", "cols", "irows", "icols"])
        n = o["r"] if f in ("rows", "irows") else o["c"]
        if f[0] == "i":
            x = [exact_scale(ep, t) for _ in range(n)]
            if t == "d":
                ep.emit("sp", "sca", t=t, u="d", A=A, form="mul", val=4 * ep.F)
        else:
            x = ep.vals(n, t)
        a = dict(t=t, A=A, form=f)
        if ep.chance(0.4):
            D = ep.new("A")
            ep.emit("sp", "new", t=t, z=D, form="diag", x=x)
            ep.S[D] = dict(k="sp", t=t, r=n, c=n)
            a["D"] = D
        else:
            a["x"] = x
        ep.emit("sp", "scale", **a)
    elif op == "permcols":
        A = any_sp(ep)
        ep.drop_views(A)
        o = ep.S[A]
        perm = list(range(o["c"]))
        r.shuffle(perm)
        ep.emit("sp", "permcols", t=o["t"], A=A, perm=perm)
    elif op == "elim":
        f = ep.pick(["rowcol", "row", "col", "rowcolm", "colm"] + ([] if ep.vast else ["colmb"]))
        if f == "rowcolm" or (f == "rowcol" and ep.chance(0.7)):
            A = square_sp(ep)
        else:
            A = any_sp(ep)
        o = ep.S[A]
        a = dict(t=o["t"], A=A, form=f)
        if f in ("rowcol", "row", "col"):
            m = min(o["r"], o["c"]) if f == "rowcol" else o["r"] if f == "row" else o["c"]
            if m == 0:
                return
            a["i"] = r.randrange(m)
        else:
            a["mask"] = [r.choice([0, 0, 1, 1, 2]) for _ in range(o["c"] + r.choice([0, 0, 2]))]
            a["bool"] = ep.pick([0, 1])
            if f == "colmb":
                a["x"] = vec.new_vec(ep, "d", o["c"])
                a["b"] = vec_of(ep, o["r"])
                if shares(ep, a["x"], a["b"]):
                    return
        ep.emit("sp", "elim", **a)
    elif op == "elimzeros":
        A = any_sp(ep)
        ep.drop_views(A)
        o = ep.S[A]
        if ep.chance(0.4):
            f = ep.pick(["col", "row"])
            m = o["r"] if f == "row" else o["c"]
            if m:
                ep.emit("sp", "elim", t=o["t"], A=A, form=f, i=r.randrange(m))
        a = dict(t=o["t"], A=A)
        if ep.chance(0.6):
            a["tol"] = abs(ep.val(o["t"]))
        if o["t"] == "d" and ep.chance(0.3):
            a["sc"] = ep.pick([-60, -45, 20, -300])
        ep.emit("sp", "elimzeros", **a)
        o.pop("nnz", None)
    ep.limit(11)


VAST = ["new", "acc", "acc", "setdata", "todense", "sort", "mulv", "mulv", "transpose", "submat", "adddiag", "permcols", "elim", "elimzeros"]


def vast_step(ep):
    step(ep, VAST)


def shares(ep, x, y):
    a, b = ep.S[x], ep.S[y]
    ra = a.get("o", x) if a["k"] == "view" else x
    rb = b.get("o", y) if b["k"] == "view" else y
    return ra == rb


def new_ws(ep, n=None, clean=False):
    z = ep.new("a")
    n = ep.dim() if n is None else n
    ep.emit("vec", "arr", t="i", z=z, v=[-ep.F] * n if clean else [ep.rng.randint(-3, 9) * ep.F for _ in range(n)])
    ep.S[z] = dict(k="arr", t="i", n=n, clean=clean)
    return z
