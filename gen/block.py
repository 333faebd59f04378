"""Block vectors, block matrices, block operators; any operator through the base class."""
from . import vec, sparse, build


def offs(ep, nmax=4):
    r = ep.rng
    o = [0]
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, nmax])):
        o.append(o[-1] + r.choice([0, 1, 1, 2, 3]))
    return o


def new_bv(ep, t=None):
    t = t or ep.pick("ddi")
    z = ep.new("bv")
    f = ep.pick(["off", "val", "data", "data", "data", "default"])
    o = offs(ep)
    if f == "default":
        o = [0]
        ep.emit("bv", "new", t=t, z=z, form=f)
    elif f == "off":
        ep.emit("bv", "new", t=t, z=z, form=f, off=o)
    elif f == "val":
        ep.emit("bv", "new", t=t, z=z, form=f, off=o, val=ep.val(t))
    else:
        ep.emit("bv", "new", t=t, z=z, form=f, off=o, x=sparse.vec_of(ep, o[-1], t))
    ep.S[z] = dict(k="bvec", t=t, n=o[-1], bo=o)
    return z


def bv_step(ep):
    r = ep.rng
    c = ep.kinds("bvec")
    x = ep.pick(c) if c and ep.chance(0.85) else new_bv(ep)
    o = ep.S[x]
    t = o["t"]
    nb = len(o["bo"]) - 1
    op = r.choice(["offsets", "block", "block", "block", "read", "read", "set", "setview", "use"])
    if op == "offsets":
        ep.emit("bv", op, t=t, x=x)
    elif op == "block" and nb:
        i = r.randrange(nb)
        z = ep.new("w")
        ep.emit("bv", "block", t=t, x=x, i=i, z=z, form=ep.pick(["const", "mut", "mut"]))
        ep.S[z] = dict(k="view", t=t, n=o["bo"][i + 1] - o["bo"][i], o=x, off=o["bo"][i])
        if ep.chance(0.6):
            vec.step(ep, ["fill", "put", "sca"])
    elif op == "read" and nb:
        ep.emit("bv", op, t=t, x=x, i=r.randrange(nb))
    elif op == "set":
        ep.emit("bv", op, t=t, x=x, val=ep.val(t))
    elif op == "setview":
        ep.drop_views(x)
        y = sparse.vec_of(ep, o["n"], t)
        ep.emit("bv", op, t=t, x=x, y=y)
    elif op == "use":
        vec.step(ep, ["put", "put", "sca", "axpy", "ew", "red", "dot", "sub", "fill"])
    ep.limit(10)


def new_bm(ep, t=None):
    t = t or ep.pick("ddi")
    z = ep.new("M")
    f = ep.pick(["rc", "rc", "sq", "default"]) if ep.chance(0.4) else "rc"
    ro, co = offs(ep), offs(ep)
    if f == "default":
        ro = co = [0]
        ep.emit("bm", "new", t=t, z=z, form=f)
    elif f == "sq":
        co = ro
        ep.emit("bm", "new", t=t, z=z, form=f, ro=ro)
    else:
        ep.emit("bm", "new", t=t, z=z, form=f, ro=ro, co=co)
    ep.S[z] = dict(k="bm", t=t, ro=ro, co=co, r=ro[-1], c=co[-1])
    return z


def blk(ep, o):
    nr, nc = len(o["ro"]) - 1, len(o["co"]) - 1
    if not nr or not nc:
        return None
    i, j = ep.rng.randrange(nr), ep.rng.randrange(nc)
    return i, j, o["ro"][i + 1] - o["ro"][i], o["co"][j + 1] - o["co"][j]


def bm_set(ep, A):
    o = ep.S[A]
    b = blk(ep, o)
    if not b:
        return
    i, j, h, w = b
    B = sparse.any_sp(ep, lambda q: q["t"] == o["t"] and q["r"] == h and q["c"] == w, t=o["t"], r=h, c=w)
    if (ep.S[B]["t"], ep.S[B]["r"], ep.S[B]["c"]) != (o["t"], h, w):
        return
    ep.emit("bm", "setblock", t=o["t"], A=A, i=i, j=j, B=B, form=ep.pick(["copy", "move"]))


def bm_step(ep):
    r = ep.rng
    c = ep.kinds("bm")
    A = ep.pick(c) if c and ep.chance(0.85) else new_bm(ep)
    o = ep.S[A]
    t = o["t"]
    op = r.choice(["set"] * 6 + ["get", "get", "transpose", "transpose", "combine", "combine", "acc", "apply", "apply"])
    if op == "set":
        for _ in range(r.choice([1, 2, 4])):
            bm_set(ep, A)
    elif op == "get":
        b = blk(ep, o)
        if b:
            z = ep.new("A")
            ep.emit("bm", "getblock", t=t, A=A, i=b[0], j=b[1], z=z)     # an unset block may come in another shape: not reused
            ep.emit("life", "del", x=z)
    elif op == "transpose":
        z = ep.new("M")
        ep.emit("bm", "transpose", t=t, A=A, z=z)
        ep.S[z] = dict(o, ro=o["co"], co=o["ro"], r=o["c"], c=o["r"])
    elif op == "combine":
        z = ep.new("A")
        ep.emit("bm", "combine", t=t, A=A, z=z)
        ep.S[z] = dict(k="sp", t=t, r=o["r"], c=o["c"])
    elif op == "acc":
        ep.emit("bm", "acc", t=t, A=A, form=ep.pick(["rows", "cols", "ro", "co"]))
    elif op == "apply":
        op_apply(ep, A)
    ep.limit(11)


OPK = ("sp", "dn", "coo", "lil", "bm", "bo")


def usable(o):
    """as an operator on double vectors, of known and fixed size"""
    return o["k"] in OPK and (o["k"] not in ("coo", "lil") or o["any"])


def new_oper(ep, r=None, c=None):
    k = ep.pick(["sp", "sp", "dn", "coo", "lil"])
    if k == "sp":
        return sparse.new_sp(ep, r=r, c=c)
    if k == "dn":
        return sparse.new_dn(ep, r=r, c=c)
    z = build.new_b(ep, k, r=ep.dim() if r is None else r, c=ep.dim() if c is None else c)
    build.fill(ep, z)
    return z


def any_oper(ep):
    c = ep.find(usable)
    return ep.pick(c) if c and ep.chance(0.9) else new_oper(ep)


def op_apply(ep, A=None):
    r = ep.rng
    A = A or any_oper(ep)
    o = ep.S[A]
    tr = ep.pick([0, 1])
    nin, nout = (o["r"], o["c"]) if tr else (o["c"], o["r"])
    q = r.random()
    if q < 0.08:
        ep.emit("op", "size", A=A)
        return
    if q < 0.25 and not ep.wide:
        x, y = sparse.vec_of(ep, o["c"]), sparse.vec_of(ep, o["r"])
        ep.emit("op", "inner", A=A, x=x, y=y)
        return
    x = sparse.vec_of(ep, nin)
    f = ep.pick(["ret", "resize", "view", "view"])
    a = dict(A=A, x=x, tr=tr, form=f)
    if f == "ret":
        a["z"] = ep.new("v")
        ep.emit("op", "apply", **a)
        ep.S[a["z"]] = dict(k="vec", t="d", n=nout)
        return
    if f == "view":
        cand = [s for s in ep.find(lambda p: p["k"] in vec.VK and p["t"] == "d" and p["n"] == nout) if not sparse.shares(ep, s, x) and ep.S[ep.S[s].get("o", s)]["k"] != "dn"]
        a["z"] = ep.pick(cand) if cand and ep.chance(0.7) else vec.new_vec(ep, "d", nout)
        if sparse.shares(ep, a["z"], x):
            return
        ep.emit("op", "apply", **a)
        return
    cand = [s for s in ep.kinds("vec", t="d") if not sparse.shares(ep, s, x)]
    a["z"] = ep.pick(cand) if cand and ep.chance(0.8) else vec.new_vec(ep, "d", ep.dim())
    ep.drop_views(a["z"])
    if a["x"] not in ep.S:
        return
    ep.emit("op", "apply", **a)
    ep.S[a["z"]]["n"] = nout


def new_bo(ep):
    z = ep.new("O")
    f = ep.pick(["rc", "rc", "sq", "default"]) if ep.chance(0.4) else "rc"
    ro, co = offs(ep), offs(ep)
    if f == "default":
        ro = co = [0]
        ep.emit("bo", "new", z=z, form=f)
    elif f == "sq":
        co = ro
        ep.emit("bo", "new", z=z, form=f, ro=ro)
    else:
        ep.emit("bo", "new", z=z, form=f, ro=ro, co=co)
    ep.S[z] = dict(k="bo", ro=ro, co=co, r=ro[-1], c=co[-1], b={})
    return z


def nested(ep, B, A):
    """does operator B, directly or not, contain A?"""
    return B == A or (ep.S[B]["k"] == "bo" and any(nested(ep, w, A) for w in ep.S[B]["b"].values()))


def bo_set(ep, A):
    o = ep.S[A]
    b = blk(ep, o)
    if not b:
        return
    i, j, h, w = b
    c = [s for s in ep.find(lambda q: usable(q) and q["r"] == h and q["c"] == w and (q["k"] not in ("coo", "lil") or q["set"])) if not nested(ep, s, A)]
    B = ep.pick(c) if c and ep.chance(0.7) else new_oper(ep, h, w)
    ep.emit("bo", "setblock", A=A, i=i, j=j, B=B)
    o["b"] = dict(o["b"])
    o["b"]["%d,%d" % (i, j)] = B


def bo_step(ep):
    r = ep.rng
    c = ep.kinds("bo")
    A = ep.pick(c) if c and ep.chance(0.85) else new_bo(ep)
    o = ep.S[A]
    op = r.choice(["set"] * 5 + ["get", "get", "acc", "apply", "apply", "apply", "edit", "edit", "life"])
    if op == "set":
        for _ in range(r.choice([1, 2, 4])):
            bo_set(ep, A)
    elif op == "get":
        b = blk(ep, o)
        if b:
            ep.emit("bo", "getblock", A=A, i=b[0], j=b[1])
    elif op == "acc":
        ep.emit("bo", "acc", A=A, form=ep.pick(["rows", "cols", "ro", "co"]))
    elif op == "apply":
        op_apply(ep, A)
    elif op == "edit" and o["b"]:               # change a block behind the operator's back
        B = ep.pick(sorted(o["b"].values()))
        q = ep.S[B]
        if q["k"] == "sp":
            ep.emit("sp", "sca", t=q["t"], u=q["t"], A=B, form="mul", val=ep.pick([2, -1, 3]) * ep.F)
        elif q["k"] == "dn" and q["r"] and q["c"]:
            ep.emit("dn", "put", A=B, i=r.randrange(q["r"]), j=r.randrange(q["c"]), val=ep.val(), form="at")
        elif q["k"] in ("coo", "lil"):
            build.add(ep, B, ["one"])
        op_apply(ep, A)
    elif op == "life":
        z = ep.new("O")
        if ep.chance(0.5) or ep.held(A):
            ep.emit("life", "copy", x=A, z=z)
            ep.S[z] = dict(o, b=dict(o["b"]))
        else:
            c = [s for s in ep.kinds("bo") if s != A and not ep.held(s) and not nested(ep, A, s) and not nested(ep, s, A)]
            if c and ep.chance(0.6):
                y = ep.pick(c)
                ep.emit("life", "swap", x=A, y=y)
                ep.S[A], ep.S[y] = ep.S[y], ep.S[A]
            else:
                ep.emit("life", "move", x=A, z=z)
                ep.S[z] = o
                ep.emit("life", "del", x=A)
                del ep.S[A]
    ep.limit(14)


def life(ep):
    vec.life(ep, ("bvec", "bm"))


def step(ep):
    ep.rng.choice([bv_step, bm_step, bm_step, bo_step, bo_step])(ep)
