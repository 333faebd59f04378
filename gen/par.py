"""Distributed matrices, vectors and solvers (C22).  Every episode has one number of ranks; some ranks own nothing, but the last one always does."""
from . import vec, num


def begin(ep):
    ep.P = ep.rng.choice([1, 2, 2, 2, 3, 3, 3, 4])
    ep.offs = []
    for _ in range(2):
        new_off(ep)


def full(o):
    return all(a < b for a, b in zip(o, o[1:]))


def new_off(ep, every=False):
    g = ep.rng
    n = g.randint(ep.P, max(ep.P, ep.size([3, 4, 5, 6, 8], 9, 16)))
    off = tuple([0] + sorted(g.sample(range(1, n), ep.P - 1) if every or n < 2 or ep.chance(0.85) else g.choices(range(n), k=ep.P - 1)) + [n])
    ep.offs.append(off)
    return off


def off(ep):
    return ep.pick(ep.offs) if ep.chance(0.85) else new_off(ep)


def blocks(ep, R, rs, cs, keep=0.15, diag=False):
    """global rows -> the blocks of every rank; some zeros stored, entries of a row in any order"""
    g = ep.rng
    L = []
    sh = ep.chance(0.4)
    for r in range(ep.P):
        own = range(cs[r], cs[r + 1])
        rows = range(rs[r], rs[r + 1])
        m = sorted({c for i in rows for c in range(cs[-1]) if c not in own and (R[i][c] or g.random() < keep * 0.2)}
                   | {c for c in range(cs[-1]) if c not in own and g.random() < 0.04})

        def blk(cols, dg):
            p, j, x = [0], [], []
            for i in rows:
                q = [k for k, c in enumerate(cols) if R[i][c] or g.random() < keep or (dg and c == i)]
                if sh:
                    g.shuffle(q)
                j += q
                x += [R[i][cols[k]] * ep.F for k in q]
                p.append(len(j))
            return dict(p=p, j=j, x=x, r=len(rows), c=len(cols))
        L.append(dict(d=blk(list(own), diag), o=blk(m, False), map=m))
    return L


def put_pm(ep, R, rs, cs, diag=False, form=None):
    g = ep.rng
    form = form or g.choice(["full", "full", "full", "offsets"])
    z = ep.new("M")
    if form in ("diag", "sqdiag", "rectdiag"):
        R = [[R[i][c] if any(rs[r] <= i < rs[r + 1] and cs[r] <= c < cs[r + 1] for r in range(ep.P)) else 0 for c in range(cs[-1])] for i in range(rs[-1])]
    L = blocks(ep, R, rs, cs, diag=diag)
    ep.emit("pm", "new", z=z, form=form, n=ep.P, rs=list(rs), cs=list(cs), L=L)
    hd = rs == cs and (diag or all(any(L[r]["d"]["j"][q] == i for q in range(L[r]["d"]["p"][i], L[r]["d"]["p"][i + 1])) for r in range(ep.P) for i in range(rs[r + 1] - rs[r])))
    ep.S[z] = dict(k="pm", t="n", n=ep.P, rs=rs, cs=cs, hd=hd, rows=None)
    return z


def new_pm(ep):
    g = ep.rng
    x = g.random()
    if x < 0.04:
        z = ep.new("M")
        ep.emit("pm", "new", z=z, form="default", n=ep.P)
        ep.S[z] = dict(k="pm", t="n", n=ep.P, rs=None, cs=None, hd=False, rows=None)
        return z
    if x < 0.3:
        return new_spd(ep)
    rs = off(ep)
    cs = rs if ep.chance(0.45) else off(ep)
    dens = g.choice([0.15, 0.4, 0.8])
    R = [[ep.val(small=ep.chance(0.5)) if g.random() < dens else 0 for _ in range(cs[-1])] for _ in range(rs[-1])]
    R = [[v // ep.F for v in row] for row in R] if ep.F != 1 else R
    form = None
    if ep.chance(0.15):
        form = g.choice(["diag", "rectdiag", "sqdiag" if rs == cs else "diag"])
    return put_pm(ep, R, rs, cs, diag=rs == cs and ep.chance(0.6), form=form)


def spd(ep, n):
    g = ep.rng
    dens = g.choice([0.2, 0.5, 0.9])
    R = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if g.random() < dens * min(1, 4 / n):
                R[i][j] = R[j][i] = g.choice([-1, -1, 1, -2])
    for i in range(n):
        s = sum(abs(v) for v in R[i]) + 1
        R[i][i] = next((d for d in (1, 2, 4, 5, 10) if d >= s and (n <= 3 or ep.chance(0.9))), 10) if s <= 10 else s
    return R


def new_spd(ep):
    c = [o for o in ep.offs if o[-1] <= 6 and full(o)]
    rs = ep.pick(c) if c else new_off(ep, True)
    if rs[-1] > 8:
        return new_pm(ep)
    R = spd(ep, rs[-1])
    z = put_pm(ep, R, rs, rs, diag=True)
    ep.S[z]["rows"] = R if max(abs(v) for r in R for v in r) <= 12 else None
    return z


def pms(ep, pred=lambda o: True):
    return ep.findall(lambda o: o["k"] == "pm" and o["rs"] is not None and pred(o))


def pvs(ep, ps):
    return ep.findall(lambda o: o["k"] == "pv" and o["ps"] == ps)


def new_pv(ep, ps=None, small=False):
    g = ep.rng
    z = ep.new("v")
    if ps is None and ep.chance(0.05):
        ep.emit("pv", "new", z=z, form="default", n=ep.P)
        ep.S[z] = dict(k="pv", t="n", n=ep.P, ps=None)
        return z
    ps = ps or off(ep)
    f = g.choice(["zero", "const", "copy", "copy", "copy", "copy"])
    xs = [[ep.val(nz=ep.chance(0.3), small=small) for _ in range(ps[r + 1] - ps[r])] for r in range(ep.P)]
    a = dict(z=z, form=f, n=ep.P, ps=list(ps))
    if f == "const":
        a["val"] = ep.val(small=small)
    elif f == "copy":
        a["xs"] = xs
    ep.emit("pv", "new", **a)
    ep.S[z] = dict(k="pv", t="n", n=ep.P, ps=ps)
    return z


def a_pv(ep, ps, fresh=0.4, **k):
    c = pvs(ep, ps)
    return ep.pick(c) if c and not ep.chance(fresh) else new_pv(ep, ps, **k)


def a_pm(ep, pred=lambda o: True, make=new_pm):
    for _ in range(4):
        c = pms(ep, pred)
        if c and not ep.chance(0.15):
            return ep.pick(c)
        make(ep)
    return ep.pick(pms(ep, pred)) if pms(ep, pred) else None


def out(ep, rs, cs):
    z = ep.new("M")
    ep.S[z] = dict(k="pm", t="n", n=ep.P, rs=rs, cs=cs, hd=False, rows=None)
    return z


def mulv(ep):
    A = a_pm(ep)
    if not A:
        return
    o = ep.S[A]
    tr = ep.rng.randint(0, 1)
    x = a_pv(ep, o["rs"] if tr else o["cs"])
    y = o["cs"] if tr else o["rs"]
    f = ep.pick(["pret", "ret", "opret", "pview", "view", "op"])
    a = dict(A=A, x=x, tr=tr, form=f)
    if f == "pret":
        a["z"] = ep.new("v")
        ep.S[a["z"]] = dict(k="pv", t="n", n=ep.P, ps=y)
    elif f in ("pview", "view", "op"):
        c = [s for s in pvs(ep, y) if s != x]
        a["z"] = ep.pick(c) if c and ep.chance(0.6) else new_pv(ep, y)
    ep.emit("pm", "mulv", **a)


def mul(ep):
    A = a_pm(ep)
    if not A:
        return
    B = a_pm(ep, lambda o: o["rs"] == ep.S[A]["cs"], lambda e: sized(e, ep.S[A]["cs"], off(ep)))
    ra, cb = ep.S[A]["rs"], ep.S[B]["cs"]
    z = out(ep, ra, cb)
    ep.emit("pm", "mul", A=A, B=B, z=z, form=ep.pick(["member", "op", "free"]))


def sized(ep, rs, cs):
    g = ep.rng
    dens = g.choice([0.15, 0.4, 0.8])
    R = [[g.randint(-3, 3) if g.random() < dens else 0 for _ in range(cs[-1])] for _ in range(rs[-1])]
    return put_pm(ep, R, rs, cs, diag=rs == cs and ep.chance(0.5))


def trans(ep):
    A = a_pm(ep)
    if A:
        z = out(ep, ep.S[A]["cs"], ep.S[A]["rs"])
        ep.emit("pm", "trans", A=A, z=z, form=ep.pick(["member", "free"]))


def rap(ep):
    A = a_pm(ep)
    if not A:
        return
    o = ep.S[A]
    if o["rs"] == o["cs"] and ep.chance(0.6):
        P = a_pm(ep, lambda q: q["rs"] == o["cs"], lambda e: sized(e, o["cs"], off(ep)))
        z = out(ep, ep.S[P]["cs"], ep.S[P]["cs"])
        ep.emit("pm", "rap", A=A, P=P, z=z)
    else:
        P = a_pm(ep, lambda q: q["rs"] == o["cs"], lambda e: sized(e, o["cs"], off(ep)))
        R = a_pm(ep, lambda q: q["rs"] == o["rs"], lambda e: sized(e, o["rs"], off(ep)))
        z = out(ep, ep.S[R]["cs"], ep.S[P]["cs"])
        ep.emit("pm", "rap", A=A, P=P, R=R, z=z)


def add(ep):
    A = a_pm(ep)
    if not A:
        return
    o = ep.S[A]
    B = a_pm(ep, lambda q: q["rs"] == o["rs"] and q["cs"] == o["cs"], lambda e: sized(e, o["rs"], o["cs"]))
    z = out(ep, o["rs"], o["cs"])
    ep.emit("pm", "add", A=A, B=B, z=z, sub=ep.rng.randint(0, 1), form=ep.pick(["2", "2", "4", "5", "5twice"]),
            alpha=ep.val(small=True), beta=ep.val(small=True), extra=ep.rng.choice([0, 0, 3]), fill=-1)


def split(ep):
    g = ep.rng
    n = g.randint(ep.P, max(ep.P, ep.size([7], 9, 14)))
    x = g.random()
    R = num.mat(ep, n, n, 4, g.choice([0.2, 0.5, 0.9]))
    if x < 0.5:
        for i in range(n):
            for j in range(i):
                R[i][j] = R[j][i]
    A = num.new_sp_rows(ep, R, n)
    part = list(range(ep.P)) + [g.randrange(ep.P) for _ in range(n - ep.P)]
    g.shuffle(part)
    o = [0]
    for r in range(ep.P):
        o.append(o[-1] + part.count(r))
    o = tuple(o)
    if len(ep.offs) < 6:
        ep.offs.append(o)
    z = out(ep, o, o)
    ep.emit("pm", "split", A=A, part=part, n=ep.P, z=z)
    ep.drop(A)


def sca(ep):
    A = a_pm(ep)
    if not A:
        return
    f = ep.pick(["neg", "mul", "mul", "set"])
    if f == "neg":
        o = ep.S[A]
        z = out(ep, o["rs"], o["cs"])
        ep.S[z]["hd"] = o["hd"]
        ep.emit("pm", "sca", A=A, z=z, form=f)
    else:
        ep.emit("pm", "sca", A=A, form=f, val=ep.val(nz=True, small=True))
        ep.S[A]["rows"] = None


def rowvals(ep, A, nz):
    rs = ep.S[A]["rs"]
    return [[ep.val(nz=nz, small=True) if not nz else ep.pick([1, -1, 2, 4]) * ep.F for _ in range(rs[r + 1] - rs[r])] for r in range(ep.P)]


def edit(ep):
    g = ep.rng
    op = g.choice(["adddiag", "scale", "elim", "sca", "sca"])
    if op == "sca":
        return sca(ep)
    A = a_pm(ep, (lambda o: o["hd"]) if op == "adddiag" else lambda o: True)
    if not A:
        return
    if op == "adddiag":
        if ep.chance(0.5):
            ep.emit("pm", "adddiag", A=A, form="val", val=ep.val(small=True))
        else:
            ep.emit("pm", "adddiag", A=A, form="vec", xs=rowvals(ep, A, False))
    elif op == "scale":
        f = ep.pick(["rows", "irows", "rowsm", "irowsm"])
        ep.emit("pm", "scale", A=A, form=f, xs=rowvals(ep, A, f[0] == "i"))
    else:
        rs = ep.S[A]["rs"]
        ep.emit("pm", "elim", A=A, idx=[g.randrange(rs[r + 1] - rs[r]) if rs[r] < rs[r + 1] and g.random() < 0.6 else -1 for r in range(ep.P)])
    ep.S[A]["rows"] = None


ACC = ["nnz", "maxnorm", "rows", "cols", "grows", "gcols", "rstarts", "cstarts", "comm", "myid"]


def acc(ep):
    g = ep.rng
    x = g.random()
    if x < 0.5:
        A = a_pm(ep)
        if A:
            ep.emit("pm", "acc", A=A, form=g.choice(ACC))
        c = ep.findall(lambda o: o["k"] == "pm" and o["rs"] is None)
        if c and ep.chance(0.3):
            ep.emit("pm", "acc", A=ep.pick(c), form=g.choice([f for f in ACC if f not in ("maxnorm", "comm")]))
    elif x < 0.65:
        A = a_pm(ep)
        if A:
            ep.emit("pm", "pkg", A=A)
    elif x < 0.8:
        A = a_pm(ep, lambda o: o["hd"], new_spd)
        if A:
            ep.emit("pm", "l1", A=A, opt=g.randint(1, 4), len=g.choice([0, 0, 1, 5]))
    elif x < 0.9:
        n = g.randint(1, 3)
        f = g.choice(["int", "vec"])
        ep.emit("pm", "offsets", form=f, sizes=[[g.randint(0, 6) for _ in range(1 if f == "int" else n)] for _ in range(ep.P)])
    else:
        n, r = g.randint(1, 6), g.randint(1, 4)
        z = ep.new("K")
        ep.emit("coo", "new", t="d", z=z, form="rc", r=r, c=n)
        ep.S[z] = dict(k="coo", t="d", r=r, c=n)
        for _ in range(g.randint(0, 6)):
            ep.emit("coo", "add", t="d", A=z, form="one", i=g.randrange(r), j=g.randrange(n), val=ep.val(nz=True))
        ep.emit("pm", "sortmap", A=z, map=g.sample(range(20), n))
        ep.drop(z)


def vecs(ep):
    g = ep.rng
    c = ep.findall(lambda o: o["k"] == "pv" and o["ps"] is not None)
    x = ep.pick(c) if c and ep.chance(0.85) else new_pv(ep, off(ep))
    ps = ep.S[x]["ps"]
    op = g.choice(["put", "fill", "ew", "ew", "sca", "dot", "dot", "norm", "sum", "subavg", "normalize", "new"])
    if op == "new":
        new_pv(ep)
    elif op == "put":
        r = ep.pick([q for q in range(ep.P) if ps[q] < ps[q + 1]])
        ep.emit("pv", "put", x=x, rank=r, i=g.randrange(ps[r + 1] - ps[r]), val=ep.val())
    elif op == "fill":
        ep.emit("pv", "fill", x=x, val=ep.val())
    elif op == "sca":
        ep.emit("pv", "sca", x=x, form=g.choice(["add", "sub", "mul"]), val=ep.val(small=True))
    elif op == "ew":
        f = g.choice(["add", "sub", "mul", "div"])
        if f == "div":
            y = ep.new("v")
            ep.emit("pv", "new", z=y, form="copy", n=ep.P, ps=list(ps), xs=[[g.choice([1, 2, 4, -1, -2]) * ep.F for _ in range(ps[r + 1] - ps[r])] for r in range(ep.P)])
            ep.S[y] = dict(k="pv", t="n", n=ep.P, ps=ps)
        else:
            y = x if ep.chance(0.1) else a_pv(ep, ps)
        ep.emit("pv", "ew", x=x, y=y, form=f)
    elif op == "dot":
        y = x if ep.chance(0.1) else a_pv(ep, ps)
        ep.emit("pv", "dot", x=x, y=y, form=g.choice(["member", "base", "free", "par", "parloc", "other"]))
    elif op == "norm":
        if ep.chance(0.5):
            x = square(ep, ps)
        ep.emit("pv", "norm", x=x, form=g.choice(["member", "base", "free", "par"]))
    elif op == "sum":
        ep.emit("pv", "sum", x=x, form=g.choice(["local", "global"]))
    elif op == "subavg":
        if ep.chance(0.7):
            x = divisible(ep, ps)
        ep.emit("pv", "subavg", x=x)
    elif op == "normalize":
        x = square(ep, ps)
        ep.emit("pv", "normalize", x=x)


def exact(ep, ps, v):
    x = ep.new("v")
    ep.emit("pv", "new", z=x, form="copy", n=ep.P, ps=list(ps), xs=[[v[i] * ep.F for i in range(ps[r], ps[r + 1])] for r in range(ep.P)])
    ep.S[x] = dict(k="pv", t="n", n=ep.P, ps=ps)
    return x


def square(ep, ps):
    """a vector with a whole norm"""
    g = ep.rng
    n = ps[-1]
    base = g.choice([[4], [2, 2, 2, 2], [0, 3, 4], [1, 1, 1, 1], [-1, 1, 1, -1], [8, -6], [1, -1, 1, 5, 6][:0] or [5]])
    v = (base + [0] * n)[:n] if len(base) <= n else [2] + [0] * (n - 1)
    g.shuffle(v)
    return exact(ep, ps, v)


def divisible(ep, ps):
    g = ep.rng
    n = ps[-1]
    v = [g.randint(-5, 5) for _ in range(n)]
    v[g.randrange(n)] += (-sum(v)) % n
    return exact(ep, ps, v)


# ------------------------------------------------------------------ solvers
TYPES = ["cg", "cg", "cg", "cg", "amg", "sails", "diag", "smooth", "smooth", "smooth", "plain"]


def new_ps(ep, A=None, ty=None):
    g = ep.rng
    ty = ty or g.choice(TYPES)
    z = ep.new("Q")
    if ep.chance(0.05):
        ep.emit("ps", "new", z=z, ty=ty, form="default", n=ep.P)
        ep.S[z] = dict(k="ps", t=ty, n=ep.P, rs=None, refs=[])
        return z
    A = A or a_pm(ep, lambda o: o["rows"] is not None and full(o["rs"]), new_spd)
    if not A:
        return
    a = dict(z=z, ty=ty, A=A, n=ep.P, form="full" if ep.chance(0.75) else "defaults")
    refs = []
    if ty == "cg":
        m = ep.findall(lambda o: o["k"] == "ps" and o["rs"] == ep.S[A]["rs"] and o["t"] in ("amg", "sails", "diag", "smooth"))
        if ep.chance(0.75):
            M = ep.pick(m) if m and ep.chance(0.6) else None
            if not M:
                M = new_ps(ep, A if ep.chance(0.8) else None, g.choice(["amg", "sails", "diag", "smooth"]))
            if M and ep.S[M]["rs"] == ep.S[A]["rs"]:
                a["M"] = M
                refs = [M]
    if a["form"] == "full":
        a.update(max=g.choice([0, 1, 1, 1, 1, 2, 60, 200, 200]) if ty == "cg" else g.choice([0, 1, 5]), tol=g.choice([6, 8, 10]), verbose=0,
                 stype=g.choice([-1, 0, 0, 1, 1, 2, 3]), times=g.choice([1, 1, 1, 2, 3]), weight=g.choice([1, 1, 2]), omega=g.choice([1, 1, 2, 4]))
        if ty == "cg":
            a["verbose"] = 0
    ep.emit("ps", "new", **a)
    ep.S[z] = dict(k="ps", t=ty, n=ep.P, rs=ep.S[A]["rs"], refs=refs)
    return z


def solve(ep):
    c = ep.findall(lambda o: o["k"] == "ps" and o["rs"] is not None)
    s = ep.pick(c) if c and ep.chance(0.75) else new_ps(ep)
    if not s or ep.S[s]["rs"] is None:
        return
    rs = ep.S[s]["rs"]
    b = a_pv(ep, rs, fresh=0.6, small=True)
    x = a_pv(ep, rs, fresh=0.6, small=True)
    ep.emit("ps", "solve", S=s, b=b, x=x, form=ep.pick(["op", "member"]))


def solvers(ep):
    g = ep.rng
    x = g.random()
    if x < 0.2:
        new_ps(ep)
    elif x < 0.75:
        solve(ep)
    elif x < 0.85:
        op, ty = g.choice([("diagscaling", "cg"), ("sailset", "sails")])
        c = ep.findall(lambda o: o["k"] == "ps" and o["t"] == ty and o["rs"] is not None)
        if c:
            ep.emit("ps", op, S=ep.pick(c))
    else:
        A = a_pm(ep, lambda o: o["rows"] is not None and full(o["rs"]), new_spd)
        if A:
            a = dict(A=A, n=ep.P, ev=g.randint(1, ep.S[A]["rs"][-1]), form=g.choice(["count", "other"]))
            m = ep.findall(lambda o: o["k"] == "ps" and o["rs"] == ep.S[A]["rs"])
            if m and ep.chance(0.5):
                a["M"] = ep.pick(m)
            ep.emit("ps", "lobpcg", **a)


def life(ep):
    vec.life(ep, (ep.pick(["pm", "pm", "pv", "ps"]),))


def step(ep):
    f = [(mulv, 5), (mul, 2), (trans, 2), (rap, 2), (add, 3), (split, 1), (edit, 4), (acc, 4), (vecs, 7), (life, 4), (new_pm, 2)]
    if ep.F == 1:
        f += [(solvers, 8)]
    fs = [q for q, w in f for _ in range(w)]
    ep.rng.choice(fs)(ep)
    ep.limit(12)
