"""Coordinate and list-of-lists builders."""
from . import vec, sparse

OPS = {"new": 3, "add": 22, "acc": 3, "setsize": 1, "reserve": 1, "tosparse": 4, "todense": 4, "perm": 3, "elimzeros": 3, "blkzero": 1}
COO = ["one", "one", "one", "sym", "blk1", "blk2", "sblk1", "sblk2", "colv", "rowv", "scolv", "srowv", "list", "slist", "listv", "slistv"]
LIL = ["one", "one", "sym", "blk1", "blk2"]


def new_b(ep, k=None, t=None, r=None, c=None):
    k = k or ep.pick(["coo", "lil"])
    t = t or ep.pick("ddi")
    z = ep.new("B")
    f = ep.pick(["auto", "rc", "rc", "sq"]) if r is None else "rc"
    r = ep.dim() if r is None else r
    c = ep.dim() if c is None else c
    if f == "auto":
        ep.emit(k, "new", t=t, z=z, form=f)
        ep.S[z] = dict(k=k, t=t, set=False, r=0, c=0, any=False)
    else:
        if f == "sq":
            c = r
            ep.emit(k, "new", t=t, z=z, form=f, r=r)
        else:
            ep.emit(k, "new", t=t, z=z, form=f, r=r, c=c)
        ep.S[z] = dict(k=k, t=t, set=True, r=r, c=c, any=True)
    return z


def any_b(ep, pred=lambda o: True):
    c = ep.find(lambda o: o["k"] in ("coo", "lil") and pred(o))
    return ep.pick(c) if c and ep.chance(0.93) else None


def indices(ep, o, dim, n):
    """n indices, repeated ones included"""
    m = o[dim] if o["set"] else max(o[dim], ep.rng.choice([1, 2, 4, 6]))
    return [ep.rng.randrange(m) for _ in range(n)] if m else []


def fill(ep, z, nmax=8):
    for _ in range(ep.rng.randint(0, nmax)):
        add(ep, z, ["one", "one", "sym"])


def grow(o, rows, cols):
    if rows and cols:
        o["any"] = True
        if not o["set"]:
            o["r"] = max(o["r"], 1 + max(rows))
            o["c"] = max(o["c"], 1 + max(cols))


def add(ep, A, forms=None):
    r = ep.rng
    o = ep.S[A]
    t = o["t"]
    f = ep.pick(forms or ([q for q in COO if q == "sym" or q[0] != "s"] if ep.vast else COO) if o["k"] == "coo" else forms or LIL)
    if not o["set"] and ep.held(A):
        return
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    m = r.choice([0, 1, 1, 2, 2, 3, 4])
    a = dict(t=t, A=A, form=f)
    if f[0] == "s" and f != "sym":
        a["s"] = ep.val(t)
        if not ep.coarse:
            a["s"] *= ep.F  # the operands need not be coarse enough for a fraction
    b = f.lstrip("s") if f != "sym" else f
    if b == "one":
        i, j = indices(ep, o, "r", 1), indices(ep, o, "c", 1)
        if not i or not j:
            return
        a.update(i=i[0], j=j[0], val=ep.val(t))
    elif b == "sym":
        q = dict(o, r=min(o["r"], o["c"]))
        i, j = indices(ep, q, "r", 1), indices(ep, q, "r", 1)
        if not i or not j:
            return
        if ep.chance(0.2):
            j = i
        a.update(i=i[0], j=j[0], val=ep.val(t))
        i, j = i + j, j + i
    elif b == "blk1":
        i = j = indices(ep, dict(o, r=min(o["r"], o["c"])), "r", n)
        a.update(rows=i, B=sparse.any_dn(ep, lambda q: q["r"] == len(i) and q["c"] == len(i), p=0.5, r=len(i), c=len(i)))
    elif b == "blk2":
        i, j = indices(ep, o, "r", n), indices(ep, o, "c", m)
        a.update(rows=i, cols=j, B=sparse.any_dn(ep, lambda q: q["r"] == len(i) and q["c"] == len(j), p=0.5, r=len(i), c=len(j)))
    elif b == "colv":
        i, j = indices(ep, o, "r", n), indices(ep, o, "c", 1)
        if not j:
            return
        a.update(rows=i, j=j[0], x=sparse.vec_of(ep, len(i), t))
    elif b == "rowv":
        i, j = indices(ep, o, "r", 1), indices(ep, o, "c", m)
        if not i:
            return
        a.update(i=i[0], cols=j, x=sparse.vec_of(ep, len(j), t))
    else:
        if o["set"] and (not o["r"] or not o["c"]):
            n = 0
        i, j = indices(ep, o, "r", n), indices(ep, o, "c", n)
        a.update(rows=i, cols=j)
        if b == "list":
            a["v"] = ep.vals(n, t)
        else:
            a["x"] = sparse.vec_of(ep, n, t)
    ep.emit(o["k"], "add", **a)
    grow(o, i, j)


def step(ep, ops=None):
    r = ep.rng
    names = ops or list(OPS)
    op = r.choices(names, [OPS.get(q, 1) for q in names])[0]
    A = any_b(ep) or new_b(ep)
    o = ep.S[A]
    k, t = o["k"], o["t"]
    if op == "new":
        new_b(ep)
    elif op == "add":
        for _ in range(r.choice([1, 1, 2, 5])):
            add(ep, A)
    elif op == "blkzero":                       # whatever was added can be taken away again
        n = len(ep.lines)
        add(ep, A, ["one"])
        q = ep.lines[-1]
        if len(ep.lines) > n:
            for v in (-q["a"]["val"], q["a"]["val"] // 2 if q["a"]["val"] % 2 == 0 and t == "d" else 0):
                ep.emit(k, "add", **dict(q["a"], val=v))
    elif op == "reserve":
        if k == "coo":
            ep.emit(k, "reserve", t=t, A=A, n=r.choice([0, 1, 50]))
    elif op == "setsize":
        if not ep.held(A):
            # never below what has been added
            o["r"] += r.choice([0, 0, 1, 3])
            o["c"] += r.choice([0, 0, 1, 3])
            o["set"] = o["any"] = True
            ep.emit(k, "setsize", t=t, A=A, r=o["r"], c=o["c"])
    elif not o["any"]:
        add(ep, A)
    elif op == "acc":
        ep.emit(k, "acc", t=t, A=A, form=ep.pick(["rows", "cols"]))
    elif op == "tosparse":
        u = ep.pick(["", "", "i", "d"])
        if u == "i" and t == "d" and ep.F != 1:
            u = ""
        z = ep.new("A")
        ep.emit(k, "tosparse", t=t, A=A, z=z, u=u)
        ep.S[z] = dict(k="sp", t=u or t, r=o["r"], c=o["c"])
    elif op == "todense":
        out = ep.chance(0.5)
        z = sparse.out_dn(ep) if out else ep.new("D")
        ep.emit(k, "todense", t=t, A=A, z=z, form="out" if out else "ret")
        ep.S[z] = dict(k="dn", r=o["r"], c=o["c"])
    elif op == "perm":
        if k == "coo":
            # the largest used index may move: an auto-sized builder's size follows
            if not o["set"]:
                return
            rows, cols = list(range(o["r"])), list(range(o["c"]))
            r.shuffle(rows)
            r.shuffle(cols)
            ep.emit(k, "perm", t=t, A=A, form=ep.pick(["rows", "cols", "both"]), rows=rows, cols=cols)
    elif op == "elimzeros":
        if not o["set"]:
            # removal must not decide the size: pin it with a large corner entry (see DESIGN.md)
            ep.emit(k, "add", t=t, A=A, form="one", i=o["r"] - 1, j=o["c"] - 1, val=1000 * ep.F)
        a = dict(t=t, A=A)
        if ep.chance(0.6):
            a["tol"] = abs(ep.val(t)) if o["set"] else abs(ep.val(t)) % (900 * ep.F)
        ep.emit(k, "elimzeros", **a)
    ep.limit(11)


def life(ep):
    vec.life(ep, ("coo", "lil"))


def applied(ep):
    """a builder as an operator; the product stays out of the other operands"""
    c = ep.findall(lambda o: o["k"] in ("coo", "lil") and o.get("t") == "d" and o.get("set") and "r" in o)
    if not c:
        return
    A = ep.pick(c)
    o = ep.S[A]
    tr = ep.pick([0, 1])
    x, z = ep.new("v"), ep.new("v")
    ep.emit("vec", "from", t="d", z=x, v=[ep.rng.randint(-2, 2) * ep.F for _ in range(o["r"] if tr else o["c"])], form="std")
    ep.S[x] = dict(k="vec", t="d", n=o["r"] if tr else o["c"])
    ep.emit("op", "apply", A=A, x=x, tr=tr, form="ret", z=z)
    ep.S[z] = dict(k="vec", t="d", n=o["c"] if tr else o["r"])
    ep.drop(x)
    ep.drop(z)
