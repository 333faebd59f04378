"""Vectors, views, arrays."""

RED = ["sum", "sumf", "mean", "max", "min", "absmax", "absmin", "l2", "l2f", "size"]


def new_vec(ep, t=None, n=None, name=None):
    t = t or ("i" if ep.chance(0.3) else "d")
    n = ep.dim() if n is None else n
    z = name or ep.new("v")
    x = ep.rng.random()
    if x < 0.1:
        ep.emit("vec", "new", t=t, z=z, n=n)
    elif x < 0.2:
        ep.emit("vec", "newval", t=t, z=z, n=n, val=ep.val(t))
    else:
        v = ep.vals(n, t)
        if n > 8 and ep.chance(0.6):         # the extremes at the ends
            v[ep.pick([0, n - 1])] = ep.pick([-41, 41]) * ep.F
        ep.emit("vec", "from", t=t, z=z, v=v, form=ep.pick(["std", "ptr"]))
    ep.S[z] = dict(k="vec", t=t, n=n)
    return z


def new_view(ep, x):
    o = ep.S[x]
    z = ep.new("w")
    root = o.get("o", x) if o["k"] == "view" else x
    base = o.get("off", 0) if o["k"] == "view" else 0
    n = o["n"]
    if o["k"] == "arr":
        o["clean"] = False
        if ep.chance(0.5):
            ep.emit("vec", "viewarr", t=o["t"], z=z, x=x, off=0, n=n, form="all")
            off, m = 0, n
        else:
            off = ep.rng.randint(0, n)
            m = ep.rng.randint(0, n - off)
            ep.emit("vec", "viewarr", t=o["t"], z=z, x=x, off=off, n=m, form="ptr")
    elif ep.chance(0.4):
        ep.emit("vec", "view", t=o["t"], z=z, x=x, form=ep.pick(["copy", "move"]))
        off, m = 0, n
    else:
        off = ep.rng.randint(0, n)
        m = ep.rng.randint(0, n - off)
        ep.emit("vec", "viewptr", t=o["t"], z=z, x=x, off=off, n=m)
    ep.S[z] = dict(k="view", t=o["t"], n=m, o=root, off=base + off)
    if o["k"] == "view" and "o" not in o:
        del ep.S[z]["o"]                     # a view of a default view refers to nothing
    return z


def overlap(ep, x, y):
    """partially overlapping storage: the effect of an entrywise update would depend on the order of evaluation"""
    a, b = ep.S[x], ep.S[y]
    ra, rb = a.get("o", x) if a["k"] == "view" else x, b.get("o", y) if b["k"] == "view" else y
    if ra != rb:
        return False
    oa, ob = a.get("off", 0) if a["k"] == "view" else 0, b.get("off", 0) if b["k"] == "view" else 0
    return not (oa == ob and a["n"] == b["n"])


VK = ("vec", "view", "bvec")


def partner(ep, x, kinds=VK, t=None, n=None, create=True):
    """a vector like x that does not overlap it partially"""
    o = ep.S[x]
    t = t or o["t"]
    n = o["n"] if n is None else n
    c = [s for s in ep.find(lambda p: p["k"] in kinds and p["t"] == t and p["n"] == n) if not overlap(ep, x, s)]
    if c and ep.chance(0.85 if create else 1.0):
        return ep.pick(c)
    return new_vec(ep, t, n)


def any_vec(ep, kinds=VK, t=None, nonempty=False):
    c = ep.find(lambda p: p["k"] in kinds and (t is None or p["t"] == t) and p["n"] >= (1 if nonempty else 0))
    if ep.big == "huge" and ep.chance(0.5):
        c = [s for s in c if ep.S[s]["n"] > 16]
        if not c:
            return new_vec(ep, t, ep.rng.randint(17, 280 if ep.top else 70))
    if c and ep.chance(0.9):
        return ep.pick(c)
    return new_vec(ep, t, ep.pdim() if nonempty else None)


def step(ep, ops=None):
    r = ep.rng
    op = r.choice(ops or OPS)
    if op == "new":
        new_vec(ep)
    elif op == "default":
        t = ep.pick("di")
        z = ep.new("v")
        ep.emit("vec", "default", t=t, z=z)
        ep.S[z] = dict(k="vec", t=t, n=0)
    elif op == "viewdefault":
        t = ep.pick("di")
        z = ep.new("w")
        ep.emit("vec", "viewdefault", t=t, z=z)
        ep.S[z] = dict(k="view", t=t, n=0)
    elif op == "arr":
        t = ep.pick("di")
        n = ep.dim()
        z = ep.new("a")
        ep.emit("vec", "arr", t=t, z=z, v=ep.vals(n, t))
        ep.S[z] = dict(k="arr", t=t, n=n)
        new_view(ep, z)
    elif op == "arrset":
        c = ep.find(lambda o: o["k"] == "arr" and o["n"] > 0)
        if c:
            x = ep.pick(c)
            ep.emit("vec", "arrset", t=ep.S[x]["t"], x=x, i=r.randrange(ep.S[x]["n"]), val=ep.val(ep.S[x]["t"]))
            ep.S[x]["clean"] = False
    elif op == "view":
        new_view(ep, ep.pick(ep.find(lambda o: o["k"] in ("arr", "vec", "view") and o["n"] >= 0) or [new_vec(ep)]))
    elif op == "fromview":
        x = any_vec(ep)
        z = ep.new("v")
        ep.emit("vec", "fromview", t=ep.S[x]["t"], z=z, x=x)
        ep.S[z] = dict(k="vec", t=ep.S[x]["t"], n=ep.S[x]["n"])
    elif op == "setview":
        x = any_vec(ep, ("vec",))
        y = ep.pick(ep.find(lambda o: o["k"] in VK and o["t"] == ep.S[x]["t"]))
        if ep.S[x]["n"] != ep.S[y]["n"]:
            if ep.S[y].get("o") == x:
                return
            ep.drop_views(x)
        ep.emit("vec", "setview", t=ep.S[x]["t"], x=x, y=y)
        ep.S[x]["n"] = ep.S[y]["n"]
    elif op == "assign":
        x = any_vec(ep, ("view", "vec"))
        y = partner(ep, x)
        if ep.S[x]["k"] != "view":
            x, y = y, x
        if ep.chance(0.25):
            # copying towards the front of the same storage (std::copy's contract allows this overlap)
            c = [(p, q) for p in ep.kinds("view") for q in ep.kinds("view")
                 if "o" in ep.S[p] and ep.S[p].get("o") == ep.S[q].get("o") and ep.S[p]["n"] == ep.S[q]["n"] > 0 and ep.S[p].get("f") == ep.S[q].get("f")
                 and ep.S[p]["off"] < ep.S[q]["off"]]
            if not c:
                base = ep.find(lambda o: o["k"] in ("arr", "vec") and o["n"] > 2)
                if base:
                    b = ep.pick(base)
                    n = ep.S[b]["n"]
                    m = r.randint(1, n - 1)
                    o1 = r.randint(0, n - m - 1)
                    o2 = r.randint(o1 + 1, n - m)
                    pq = []
                    for off in (o1, o2):
                        z = ep.new("w")
                        if ep.S[b]["k"] == "arr":
                            ep.emit("vec", "viewarr", t=ep.S[b]["t"], z=z, x=b, off=off, n=m, form="ptr")
                        else:
                            ep.emit("vec", "viewptr", t=ep.S[b]["t"], z=z, x=b, off=off, n=m)
                        ep.S[z] = dict(k="view", t=ep.S[b]["t"], n=m, o=b, off=off)
                        pq.append(z)
                    c = [tuple(pq)]
            if c:
                x, y = ep.pick(c)
        if ep.S[x]["k"] == "view":
            ep.emit("vec", "assign", t=ep.S[x]["t"], x=x, y=y, form=ep.pick(["const", "move", "lvalue"]))
    elif op == "fill":
        x = any_vec(ep)
        t = ep.S[x]["t"]
        ep.emit("vec", "fill", t=t, x=x, val=ep.val(t), form=ep.pick(["vec", "view"]) if ep.S[x]["k"] == "vec" else "view")
    elif op == "swapview":
        t = ep.pick("di")
        c = ep.kinds("view", t=t)
        if len(c) >= 2:
            x, y = r.sample(c, 2)
            ep.emit("vec", "swapview", t=t, x=x, y=y)
            ep.S[x], ep.S[y] = ep.S[y], ep.S[x]
    elif op == "setsize":
        x = any_vec(ep, ("vec",))
        ep.drop_views(x)
        n = ep.dim()
        a = dict(t=ep.S[x]["t"], x=x, n=n)
        if ep.chance(0.5):
            a["val"] = ep.val(ep.S[x]["t"])
        ep.emit("vec", "setsize", **a)
        ep.S[x]["n"] = n
    elif op in ("put", "get"):
        x = any_vec(ep, nonempty=True)
        o = ep.S[x]
        if op == "put":
            ep.emit("vec", "put", t=o["t"], x=x, i=r.randrange(o["n"]), val=ep.val(o["t"]), form=ep.pick(["idx", "iter"]))
        else:
            ep.emit("vec", "get", t=o["t"], x=x, i=r.randrange(o["n"]), form=ep.pick(["const", "ref"]))
    elif op == "list":
        x = any_vec(ep)
        ep.emit("vec", "list", t=ep.S[x]["t"], x=x, form=ep.pick(["const", "it", "size"] + (["data"] if ep.S[x]["k"] == "vec" else [])))
    elif op == "sub":
        x = any_vec(ep)
        o = ep.S[x]
        k = r.randint(0, o["n"] + 2) if o["n"] else 0
        idx = [r.randrange(o["n"]) for _ in range(k)]
        if ep.chance(0.5):
            c = [s for s in ep.kinds("vec", t=o["t"]) if s != x and s != o.get("o")]
            if c:
                z = ep.pick(c)
                ep.drop_views(z)
                if x not in ep.S:
                    return
                ep.emit("vec", "sub", t=o["t"], x=x, idx=idx, z=z, form="out")
                ep.S[z]["n"] = k
                return
        z = ep.new("v")
        ep.emit("vec", "sub", t=o["t"], x=x, idx=idx, z=z, form="ret")
        ep.S[z] = dict(k="vec", t=o["t"], n=k)
    elif op == "axpy":
        x = any_vec(ep)
        y = partner(ep, x)
        ep.emit("vec", "axpy", t=ep.S[x]["t"], x=x, y=y, al=ep.val("d"), form=ep.pick(["add1", "sub1", "set1"] if ep.vast else ["add", "sub", "set", "add", "sub", "set", "add1", "sub1", "set1"]))
    elif op in ("comb", "addz"):
        z = any_vec(ep)
        x, y = partner(ep, z), partner(ep, z)
        t = ep.S[z]["t"]
        if op == "comb":
            ep.emit("vec", "comb", t=t, x=x, y=y, z=z, al=ep.val(t), be=ep.val(t), ga=ep.val(t))
        else:
            ep.emit("vec", "addz", t=t, x=x, y=y, z=z, form=ep.pick(["add", "sub"]))
    elif op == "ew":
        x = any_vec(ep)
        t = ep.S[x]["t"]
        f = ep.pick(["add", "sub"] if ep.vast else ["mul", "add", "sub", "div"])
        if f == "div":
            y = ep.new("v")
            n = ep.S[x]["n"]
            ep.emit("vec", "from", t=t, z=y, v=[ep.pick([1, -1, 2, -2, 4] + ([3, -5] if t == "i" else [])) * ep.F for _ in range(n)], form="std")
            ep.S[y] = dict(k="vec", t=t, n=n)
            if ep.chance(0.3):                          # by itself, or by a view of itself
                x = y
                if ep.chance(0.5):
                    w = ep.new("w")
                    ep.emit("vec", "view", t=t, z=w, x=y, form="copy")
                    ep.S[w] = dict(k="view", t=t, n=n, o=y, off=0)
                    x, y = r.choice([(w, y), (y, w)])
            elif t == "d" and ep.F > 1:
                ep.emit("vec", "sca", t=t, x=x, val=4 * ep.F, form="mul")
        else:
            y = partner(ep, x)
        ep.emit("vec", "ew", t=t, x=x, y=y, form=f)
    elif op == "ewmix":
        x = any_vec(ep, t="d")
        y = partner(ep, x, t="i")
        ep.emit("vec", "ewmix", t="d", x=x, y=y)
    elif op == "sca":
        x = any_vec(ep)
        t = ep.S[x]["t"]
        f = ep.pick(["add", "sub"] if ep.vast else ["mul", "add", "sub", "div"])
        if f == "div":
            v = ep.pick([1, -1, 2, -2] + ([3, 7, -3] if t == "i" else [])) * ep.F
            if t == "d" and abs(v) > ep.F:
                ep.emit("vec", "sca", t=t, x=x, val=2 * ep.F, form="mul")
        else:
            v = ep.val(t, nz=True)
        ep.emit("vec", "sca", t=t, x=x, val=v, form=f)
    elif op == "expr":
        x = any_vec(ep, ("vec",))
        t, n = ep.S[x]["t"], ep.S[x]["n"]
        f = ep.pick(["add", "sub"] if ep.vast else ["add", "sub", "xv", "vx", "xd", "dx"])
        z = ep.new("v")
        a = dict(t=t, x=x, z=z, form=f)
        if f in ("add", "sub"):
            a["y"] = partner(ep, x, ("vec",))
        elif f == "xd":
            a["val"] = ep.pick([1, -1] + ([2, 3, -4] if t == "i" else [])) * ep.F
        elif f == "dx":
            x = ep.new("v")
            ep.emit("vec", "from", t=t, z=x, v=[ep.pick([1, -1, 2, -2, 4]) * ep.F for _ in range(n)], form="std")
            ep.S[x] = dict(k="vec", t=t, n=n)
            a["x"] = x
            a["val"] = ep.pick([4, 8, -12, 0, 20]) * ep.F
        else:
            a["val"] = ep.val(t)
        ep.emit("vec", "expr", **a)
        ep.S[z] = dict(k="vec", t=t, n=n)
    elif op == "dot":
        x = any_vec(ep)
        y = partner(ep, x)
        ep.emit("vec", "dot", t=ep.S[x]["t"], x=x, y=y, form=ep.pick(["mem", "op", "free"] + (["vec"] if ep.S[x]["k"] == "vec" else [])))
    elif op == "red":
        f = ep.pick([q for q in RED if q[:2] != "l2"] if ep.vast else RED)
        x = any_vec(ep, nonempty=f in ("mean", "max", "min", "absmax", "absmin"))
        ep.emit("vec", "red", t=ep.S[x]["t"], x=x, form=f)
        if ep.big == "huge" and ep.S[x]["n"]:
            for f in ep.rng.sample([q for q in RED if q[:2] != "l2"], 4):
                ep.emit("vec", "red", t=ep.S[x]["t"], x=x, form=f)
    elif op == "eq":
        x = any_vec(ep)
        if ep.chance(0.5):
            y = ep.new("v")
            ep.emit("vec", "fromview", t=ep.S[x]["t"], z=y, x=x)
            ep.S[y] = dict(k="vec", t=ep.S[x]["t"], n=ep.S[x]["n"])
            if ep.chance(0.5) and ep.S[x]["n"]:
                ep.emit("vec", "put", t=ep.S[x]["t"], x=y, i=r.randrange(ep.S[x]["n"]), val=ep.val(ep.S[x]["t"]), form="idx")
        else:
            y = any_vec(ep)
        ep.emit("vec", "eq", t=ep.S[x]["t"], u=ep.S[y]["t"], x=x, y=y)
    elif op == "eqpert":
        x = any_vec(ep, t="d", nonempty=True)
        ep.emit("vec", "eqpert", x=x, i=r.randrange(ep.S[x]["n"]), e=ep.pick([-14, -13, -11, -10, -6, -3]), neg=ep.pick([0, 1]), form=ep.pick(["fwd", "rev"]))
    elif op == "rand":
        x = any_vec(ep)
        t = ep.S[x]["t"]
        lo = r.randint(-3, 3)
        hi = lo + r.choice([0, 1, 2, 5])
        seed = r.choice([-1, 0, 1, 2, 3, 17])
        if ep.chance(0.5):
            ep.emit("vec", "fill", t=t, x=x, val=77 * ep.F, form="view")
        for _ in range(r.choice([1, 2])):
            ep.emit("vec", "rand", t=t, x=x, lo=lo, hi=hi, seed=seed, form=ep.pick(["mem", "free"]))
    elif op == "normalize":
        n = ep.pdim()
        z = ep.new("v")
        v, e = [ep.rng.choice([-1, 1, 2, -3, 4, 5, 0]) * ep.F for _ in range(n - 1)] + [ep.pick([1, -2, 7]) * ep.F], ep.pick([0, 0, -1, 3, -12, -30, 30])
        if n > 1 and ep.chance(0.2):                    # very nearly of unit length already
            v, e = [0] * (n - 2) + [ep.pick([32, -32]) * ep.F, ep.pick([1, -1]) * ep.F], -5
            r.shuffle(v)
        ep.emit("vec", "from", t="d", z=z, v=v, form="std")
        ep.S[z] = dict(k="vec", t="d", n=n)
        x = new_view(ep, z) if ep.chance(0.3) else z
        if ep.F == 1 and (x == z):
            ep.emit("vec", "normalize", x=x, e=e, form=ep.pick(["mem", "free"]))
    elif op == "subavg":
        x = any_vec(ep, t="d", nonempty=True)
        ep.emit("vec", "sca", t="d", x=x, val=ep.S[x]["n"] * ep.F, form="mul")
        ep.emit("vec", "subavg", x=x)
    ep.limit(10)


OPS = ["new", "default", "viewdefault", "arr", "arrset", "view", "view", "view", "fromview", "setview", "assign", "assign", "fill", "swapview",
       "setsize", "put", "put", "get", "list", "sub", "sub", "axpy", "axpy", "axpy", "comb", "addz", "ew", "ew", "ewmix", "sca", "sca",
       "expr", "expr", "dot", "red", "red", "red", "eq", "eqpert", "rand", "normalize", "subavg"]


VAST = ["new", "newval", "arr", "view", "view", "fromview", "setview", "assign", "fill", "swapview", "setsize", "put", "get", "list", "sub", "axpy", "axpy", "addz", "ew", "ew", "ewmix",
        "sca", "expr", "red", "red", "red", "red", "eq", "subavg"]


def vast_step(ep):
    """nothing is multiplied"""
    step(ep, VAST)


def life(ep, kinds=("vec", "arr")):
    """copy / move / assignment / swap / destruction among objects of one kind (and element type)"""
    r = ep.rng
    c = [s for s in ep.find(lambda o: o["k"] in kinds) if not ep.held(s)]
    if not c:
        return
    x = ep.pick(c)
    o = ep.S[x]
    peers = [s for s in ep.find(lambda p: p["k"] == o["k"] and p.get("t") == o.get("t")) if s != x and not ep.held(s)]
    op = r.choice(["copy", "copy", "move", "assign", "assign", "massign", "swap", "self", "del"])
    if op == "copy":
        z = ep.new("k")
        ep.emit("life", "copy", x=x, z=z)
        ep.S[z] = dict(o)
    elif op == "move":
        ep.drop_views(x)
        z = ep.new("k")
        ep.emit("life", "move", x=x, z=z)
        ep.S[z] = dict(o)
        moved(ep, x, peers)
    elif op == "self":
        ep.drop_views(x)
        ep.emit("life", "assign", x=x, y=x)
    elif op == "del":
        ep.drop(x)
    elif peers:
        y = ep.pick(peers)
        ep.drop_views(x)
        if op == "assign":
            ep.emit("life", "assign", x=x, y=y)
            ep.S[x] = dict(ep.S[y])
        elif op == "swap":
            ep.drop_views(y)
            ep.emit("life", "swap", x=x, y=y)
            ep.S[x], ep.S[y] = ep.S[y], ep.S[x]
        else:
            ep.drop_views(y)
            ep.emit("life", "massign", x=x, y=y)
            ep.S[x] = dict(ep.S[y])
            moved(ep, y, [p for p in peers if p != y] + [x])


def moved(ep, x, peers):
    """a moved-from object can only be assigned to, swapped or destroyed"""
    if peers and ep.chance(0.6):
        y = ep.pick(peers)
        ep.emit("life", "assign", x=x, y=y)
        ep.S[x] = dict(ep.S[y])
    else:
        ep.emit("life", "del", x=x)
        del ep.S[x]
