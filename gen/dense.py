"""Dense matrices."""
from . import vec
from .sparse import new_dn, any_dn, out_dn, vec_of, exact_scale, shares


def out_or_ret(ep, a, f, avoid, r, c, sized=False):
    """fill in form and z; returns the slot"""
    if ep.chance(0.5):
        if sized:
            cand = [s for s in ep.kinds("dn", r=r, c=c) if s not in avoid]
            z = ep.pick(cand) if cand and ep.chance(0.7) else new_dn(ep, r, c)
            ep.drop_views(z)
        else:
            z = out_dn(ep, avoid)
        a["form"] = f + "-out"
    else:
        z = ep.new("D")
        a["form"] = f
    a["z"] = z
    return z


def rng_(ep, n):
    if ep.big == "huge" and n > 16 and ep.chance(0.5):
        return (ep.rng.randint(0, 3), n - ep.rng.randint(0, 3))
    i = ep.rng.randint(0, n)
    return (i, ep.rng.randint(i, n))


OPS = {"new": 3, "newalt": 1, "acc": 6, "put": 2, "setsize": 3, "colview": 3, "viewuse": 3, "mulv": 4, "mul": 6, "transpose": 3, "iarith": 3, "sca": 3,
       "expr": 3, "eq": 2, "eqpert": 1, "scale": 4, "getline": 4, "setline": 3, "get": 6, "set": 6, "hstack": 3}


def step(ep, ops=None, weights=OPS):
    r = ep.rng
    names = ops or list(weights)
    op = r.choices(names, [weights.get(o, 1) for o in names])[0]
    if op == "new":
        new_dn(ep)
    elif op == "newalt":
        z = ep.new("D")
        f = ep.pick(["default", "size", "rc"])
        n, m = ep.dim(), ep.dim()
        if f == "default":
            ep.emit("dn", "new", z=z, form=f)
            n = m = 0
        elif f == "size":
            ep.emit("dn", "new", z=z, form=f, r=n)
            m = n
        else:
            ep.emit("dn", "new", z=z, form=f, r=n, c=m)
        ep.S[z] = dict(k="dn", r=n, c=m)
    elif op == "acc":
        f = ep.pick(["rows", "cols", "sum", "max", "min", "diag", "diag-out", "copydata", "data", "at", "cat"])
        n = ep.pdim()
        if f.startswith("diag"):
            A = any_dn(ep, lambda o: o["r"] == o["c"], r=n, c=n)
        elif f in ("sum", "max", "min", "at", "cat"):
            A = any_dn(ep, lambda o: o["r"] > 0 and o["c"] > 0, r=n, c=ep.pdim())
        else:
            A = any_dn(ep)
        o = ep.S[A]
        a = dict(A=A, form=f)
        if f in ("at", "cat"):
            a.update(i=r.randrange(o["r"]), j=r.randrange(o["c"]))
        if f == "copydata":
            a["n"] = r.choice([0, 1, 60])
        ep.emit("dn", "acc", **a)
    elif op == "put":
        A = any_dn(ep, lambda o: o["r"] > 0 and o["c"] > 0, r=ep.pdim(), c=ep.pdim())
        o = ep.S[A]
        ep.emit("dn", "put", A=A, i=r.randrange(o["r"]), j=r.randrange(o["c"]), val=ep.val(), form=ep.pick(["at", "raw"]))
    elif op == "setsize":
        A = any_dn(ep)
        ep.drop_views(A)
        f = ep.pick(["sq", "rc", "sqv", "rcv"])
        n, m = ep.dim(), ep.dim()
        if ep.chance(0.2):
            n, m = ep.S[A]["c"], ep.S[A]["r"]
        a = dict(A=A, form=f, r=n)
        if f[:2] == "rc":
            a["c"] = m
        else:
            m = n
        if f[-1] == "v":
            a["val"] = ep.val()
        ep.emit("dn", "setsize", **a)
        ep.S[A].update(r=n, c=m)
        if f[-1] != "v":                     # uninitialised entries: write before use
            ep.emit("dn", "sca", A=A, form="set", val=ep.val())
    elif op == "colview":
        A = any_dn(ep, lambda o: o["c"] > 0, c=ep.pdim())
        z = ep.new("w")
        j = r.randrange(ep.S[A]["c"])
        ep.emit("dn", "colview", A=A, j=j, z=z, form=ep.pick(["mut", "const"]))
        n = ep.S[A]["r"]
        ep.S[z] = dict(k="view", t="d", n=n, o=A, off=j * n)
    elif op == "viewuse":
        c = ep.find(lambda o: o["k"] == "view" and o["t"] == "d" and o.get("n", -1) > 0)
        if c:
            x = ep.pick(c)
            f = ep.pick(["fill", "put", "assign", "list"] + ([] if ep.vast else ["sca"]))
            if f == "fill":
                ep.emit("vec", "fill", t="d", x=x, val=ep.val(), form="view")
            elif f == "put":
                ep.emit("vec", "put", t="d", x=x, i=r.randrange(ep.S[x]["n"]), val=ep.val(), form="idx")
            elif f == "assign":
                y = vec.partner(ep, x)
                ep.emit("vec", "assign", t="d", x=x, y=y, form="const")
            elif f == "sca":
                ep.emit("vec", "sca", t="d", x=x, val=ep.val(), form="mul")
            else:
                ep.emit("vec", "list", t="d", x=x, form="const")
    elif op == "mulv":
        A = any_dn(ep)
        o = ep.S[A]
        tr = ep.pick([0, 1])
        nin, nout = (o["r"], o["c"]) if tr else (o["c"], o["r"])
        u = ep.pick("ddi")
        f = ep.pick(["ret", "tmpl", "view", "view"])
        x = vec_of(ep, nin, u)
        a = dict(A=A, u=u, v="d", tr=tr, x=x, form=f)
        if f == "view":
            a["v"] = ep.pick("ddi") if ep.F == 1 else "d"
            cand = [s for s in ep.find(lambda p: p["k"] in vec.VK and p["t"] == a["v"] and p["n"] == nout) if not shares(ep, s, x)
                    and ep.S[s].get("o") != A]
            a["z"] = ep.pick(cand) if cand and ep.chance(0.7) else vec.new_vec(ep, a["v"], nout)
            if ep.S[x].get("o") == A and ep.S[a["z"]].get("o") == A:
                return
            ep.emit("dn", "mulv", **a)
        else:
            a["z"] = ep.new("v")
            ep.emit("dn", "mulv", **a)
            ep.S[a["z"]] = dict(k="vec", t="d", n=nout)
    elif op == "mul":
        A = any_dn(ep)
        o = ep.S[A]
        f = ep.pick(["ab", "atb", "abt", "atbt"])
        k = o["c"] if f in ("ab", "abt") else o["r"]
        n = o["r"] if f in ("ab", "abt") else o["c"]
        key = "r" if f in ("ab", "atb") else "c"
        Bm = any_dn(ep, lambda q: q[key] == k, **{key: k})
        if n * ep.S[Bm]["c" if key == "r" else "r"] > 3000:
            q = r.randint(1, 4)
            Bm = new_dn(ep, *((k, q) if key == "r" else (q, k)))
        b = ep.S[Bm]
        m = b["c"] if key == "r" else b["r"]
        a = dict(A=A, B=Bm)
        z = out_or_ret(ep, a, f, (A, Bm), n, m)
        ep.emit("dn", "mul", **a)
        ep.S[z] = dict(k="dn", r=n, c=m)
    elif op == "transpose":
        A = any_dn(ep)
        a = dict(A=A)
        z = out_or_ret(ep, a, "plain", (A,), 0, 0)
        ep.emit("dn", "transpose", **a)
        ep.S[z] = dict(k="dn", r=ep.S[A]["c"], c=ep.S[A]["r"])
    elif op in ("iarith", "eq"):
        A = any_dn(ep)
        o = ep.S[A]
        Bm = any_dn(ep, lambda q: q["r"] == o["r"] and q["c"] == o["c"], r=o["r"], c=o["c"]) if op == "iarith" or ep.chance(0.6) else any_dn(ep)
        if op == "iarith":
            ep.emit("dn", "iarith", A=A, B=Bm, form=ep.pick(["add", "sub"]))
        else:
            ep.emit("dn", "eq", A=A, B=Bm)
    elif op == "sca":
        A = any_dn(ep)
        f = ep.pick(["mul", "mul", "div", "set"])
        if f == "div":
            ep.emit("dn", "sca", A=A, form="mul", val=4 * ep.F)
            ep.emit("dn", "sca", A=A, form="div", val=exact_scale(ep, "d"))
        else:
            ep.emit("dn", "sca", A=A, form=f, val=ep.val(small=(f == "mul")))
    elif op == "expr":
        A = any_dn(ep)
        o = ep.S[A]
        f = ep.pick(["add", "sub"] if ep.vast else ["add", "sub", "xv", "vx", "xd"])
        z = ep.new("D")
        a = dict(A=A, z=z, form=f)
        if f in ("add", "sub"):
            a["B"] = any_dn(ep, lambda q: q["r"] == o["r"] and q["c"] == o["c"], r=o["r"], c=o["c"])
        elif f == "xd":
            a["val"] = ep.pick([1, -1, 2, -2]) * ep.F
            ep.emit("dn", "sca", A=A, form="mul", val=2 * ep.F)
        else:
            a["val"] = ep.val()
        ep.emit("dn", "expr", **a)
        ep.S[z] = dict(k="dn", r=o["r"], c=o["c"])
    elif op == "eqpert":
        A = any_dn(ep, lambda o: o["r"] > 0 and o["c"] > 0, r=ep.pdim(), c=ep.pdim())
        o = ep.S[A]
        ep.emit("dn", "eqpert", A=A, i=r.randrange(o["r"]), j=r.randrange(o["c"]), e=ep.pick([-10, -11, -8, -2, 0, -13, -14]), neg=ep.pick([0, 1]))
    elif op == "scale":
        A = any_dn(ep)
        o = ep.S[A]
        f = ep.pick(["rows", "cols", "irows", "icols"])
        n = o["r"] if f in ("rows", "irows") else o["c"]
        u = ep.pick(["std", "int", "vec", "view"])
        if f[0] == "i":
            x = [exact_scale(ep, "d") for _ in range(n)]
            ep.emit("dn", "sca", A=A, form="mul", val=4 * ep.F)
        else:
            x = ep.vals(n, "i" if u == "int" else "d")
        ep.emit("dn", "scale", A=A, form=f, u=u, x=x)
    elif op == "getline":
        row = ep.chance(0.5)
        A = any_dn(ep, lambda o: (o["r"] if row else o["c"]) > 0, **({"r": ep.pdim()} if row else {"c": ep.pdim()}))
        o = ep.S[A]
        i = r.randrange(o["r"] if row else o["c"])
        n = o["c"] if row else o["r"]
        f = ep.pick(["ret", "view"] + ([] if row else ["mut"]))
        t = "d" if f == "mut" else ep.pick("ddi")
        if f == "ret":
            z = ep.new("v")
            ep.S[z] = dict(k="vec", t=t, n=n)
        else:
            cand = ep.find(lambda p: p["k"] in vec.VK and p["t"] == t and p["n"] == n and p.get("o") != A)
            z = ep.pick(cand) if cand and ep.chance(0.7) else vec.new_vec(ep, t, n)
        ep.emit("dn", "getrow" if row else "getcol", t=t, A=A, i=i, z=z, form=f)
    elif op == "setline":
        row = ep.chance(0.5)
        A = any_dn(ep, lambda o: (o["r"] if row else o["c"]) > 0, **({"r": ep.pdim()} if row else {"c": ep.pdim()}))
        o = ep.S[A]
        t = ep.pick("ddi")
        n = o["c"] if row else o["r"]
        cand = ep.find(lambda p: p["k"] in vec.VK and p["t"] == t and p["n"] == n and p.get("o") != A)
        x = ep.pick(cand) if cand and ep.chance(0.7) else vec.new_vec(ep, t, n)
        ep.emit("dn", "setrow" if row else "setcol", t=t, A=A, i=r.randrange(o["r"] if row else o["c"]), x=x)
    elif op == "get":
        A = any_dn(ep)
        o = ep.S[A]
        f = ep.pick(["rows", "rowlist", "cols", "range", "list"])
        a = dict(A=A)
        n, m = o["r"], o["c"]
        if f in ("rows", "range"):
            a["i0"], a["i1"] = rng_(ep, o["r"])
            n = a["i1"] - a["i0"]
        if f in ("cols", "range"):
            a["j0"], a["j1"] = rng_(ep, o["c"])
            m = a["j1"] - a["j0"]
        if f in ("rowlist", "list"):
            a["rows"] = [r.randrange(o["r"]) for _ in range(r.randint(0, o["r"] + 1))] if o["r"] else []
            n = len(a["rows"])
        if f == "list":
            a["cols"] = [r.randrange(o["c"]) for _ in range(r.randint(0, o["c"] + 1))] if o["c"] else []
            m = len(a["cols"])
        z = out_or_ret(ep, a, f, (A,), n, m, sized=f == "rowlist")
        ep.emit("dn", "get", **a)
        ep.S[z] = dict(k="dn", r=n, c=m)
    elif op == "set":
        A = any_dn(ep)
        o = ep.S[A]
        f = ep.pick(["rows", "cols", "sub", "sub5", "subt", "subt5", "add", "add"])
        a = dict(A=A, form=f)
        i0, i1 = rng_(ep, o["r"])
        j0, j1 = rng_(ep, o["c"])
        if f == "rows":
            j0, j1 = 0, o["c"]
        if f == "cols":
            i0, i1 = 0, o["r"]
        if f[:3] == "sub" and ep.chance(0.2):                  # a square section
            q = min(o["r"] - i0, o["c"] - j0)
            i1, j1 = i0 + q, j0 + q
        n, m = i1 - i0, j1 - j0
        if f == "add":
            a["rows"] = [r.randrange(o["r"]) for _ in range(r.randint(0, 4))] if o["r"] else []
            a["cols"] = [r.randrange(o["c"]) for _ in range(r.randint(0, 4))] if o["c"] else []
            n, m = len(a["rows"]), len(a["cols"])
        else:
            a.update(i0=i0, i1=i1, j0=j0, j1=j1)
            if f[:4] == "subt":
                n, m = m, n
        Bm = any_dn(ep, lambda q: q["r"] == n and q["c"] == m, r=n, c=m)
        if Bm == A:
            Bm = new_dn(ep, n, m)
        ep.emit("dn", "set", B=Bm, **a)
    elif op == "hstack":
        A = any_dn(ep)
        n = ep.S[A]["r"]
        lst = [A]
        for _ in range(r.randint(0, 3)):
            lst.append(any_dn(ep, lambda q: q["r"] == n, r=n))
        a = dict(list=lst)
        m = sum(ep.S[s]["c"] for s in lst)
        z = out_or_ret(ep, a, "plain", (), n, m)
        ep.emit("dn", "hstack", **a)
        ep.S[z] = dict(k="dn", r=n, c=m)
    ep.limit(11)


VAST = ["new", "acc", "acc", "put", "setsize", "colview", "viewuse", "mulv", "mulv", "transpose", "iarith", "expr", "eq", "getline", "setline", "get", "set", "hstack"]


def vast_step(ep):
    step(ep, VAST)
