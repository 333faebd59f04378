"""Dense factorizations, eigensolver, iterative and direct solvers."""
from . import vec, sparse


def det(R):
    if not R:
        return 1
    return sum((-1) ** j * R[0][j] * det([r[:j] + r[j + 1:] for r in R[1:]]) for j in range(len(R)) if R[0][j])


def mat(ep, r, c, mx, dens=1.0):
    g = ep.rng
    return [[g.randint(-mx, mx) if g.random() < dens else 0 for _ in range(c)] for _ in range(r)]


def new_dn_rows(ep, R, c=None, F=None):
    F = ep.F if F is None else F
    r = len(R)
    c = len(R[0]) if R else (0 if c is None else c)
    z = ep.new("D")
    ep.emit("dn", "new", z=z, form="data", r=r, c=c, v=[R[i][j] * F for j in range(c) for i in range(r)])
    ep.S[z] = dict(k="dn", r=r, c=c, rows=R)
    return z


def new_sp_rows(ep, R, c=None, keepzero=0.1):
    g = ep.rng
    c = len(R[0]) if R else (0 if c is None else c)
    p, j, x = [0], [], []
    sh = ep.chance(0.5)
    for row in R:
        cols = [q for q in range(c) if row[q] or g.random() < keepzero * 0.3]
        if sh:
            g.shuffle(cols)
        j += cols
        x += [row[q] * ep.F for q in cols]
        p.append(len(j))
    z = ep.new("A")
    ep.emit("sp", "new", t="d", z=z, form="csr", p=p, j=j, x=x, r=len(R), c=c)
    ep.S[z] = dict(k="sp", t="d", r=len(R), c=c, nnz=len(j), rows=R)
    return z


# ------------------------------------------------------------------ factorizations
def dominant(ep, n, mx=6, sym=False, definite=False):
    """rows strictly dominated by one entry, rows shuffled unless symmetric"""
    g = ep.rng
    dens = g.choice([0.2, 0.5, 1.0]) * min(1.0, 5.0 / max(1, n))
    R = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and (not sym or i < j) and g.random() < dens:
                R[i][j] = g.randint(-2, 2)
                if sym:
                    R[j][i] = R[i][j]
    for i in range(n):
        s = sum(abs(v) for v in R[i])
        R[i][i] = (s + g.randint(1, 4)) * (1 if definite or g.random() < 0.7 else -1)
    if not sym:
        g.shuffle(R)
    return R


def nonsing(ep, n):
    if n > 4 or ep.chance(0.2):
        return dominant(ep, n)
    for _ in range(100):
        R = mat(ep, n, n, ep.pick([1, 2, 4, 9]), ep.pick([0.6, 1.0]))
        if det(R):
            return R
    return dominant(ep, n)


def inv(ep):
    n = ep.size([0, 1, 2, 2, 3, 3, 4, 4, 5, 7], 8, 20)
    fact(ep, "inv", new_dn_rows(ep, nonsing(ep, n), n))


def shift(ep):
    """powers of two the entries are multiplied by"""
    return {"sc": ep.pick([-40, 40, -200, 200, -7])} if ep.chance(0.25) else {}


def fact(ep, op, A):
    if ep.chance(0.4):
        ep.emit("dn", op, A=A, form="in", **shift(ep))
        z = A
        ep.S[A].pop("rows", None)
    else:
        z = sparse.out_dn(ep, (A,))
        ep.emit("dn", op, A=A, z=z, form="out", **shift(ep))
        ep.S[z].pop("rows", None)
    if op in ("inv", "svd"):
        ep.S[z].update(r=ep.S[A]["r"], c=ep.S[A]["c"])
    else:
        r, c = ep.S[A]["r"], ep.S[A]["c"]
        ep.S[z].update(r=r, c=c if r == 0 or c == 0 else min(r, c))


def qrsvd(ep):
    g = ep.rng
    op = ep.pick(["qr", "svd"])
    r = ep.size([0, 1, 1, 2, 3, 4, 5, 8], 6, 12) if ep.chance(0.8) else g.choice([1, 2, 3])
    c = ep.size([0, 1, 1, 2, 2, 3, 4, 7], 6, 12) if ep.chance(0.8) else g.choice([1, 2, 3])
    k = g.choice(["rand", "rand", "rand", "low", "low", "zero", "orth", "perm"])
    mx = min(g.choice([1, 2, 4, 6]), 150 // max(r, c, 1))
    R = mat(ep, r, c, mx, g.choice([0.5, 1.0]))
    if k == "zero":
        R = mat(ep, r, c, 0)
    elif k == "low" and c > 1:
        for row in R:                       # a repeated and a zero column
            row[g.randrange(c)] = row[0]
        j = g.randrange(c)
        i = g.randrange(c)
        for row in R:
            row[j] = row[i] if k == "low" else 0
    elif k == "orth":
        R = [[(mx if i == j else 0) for j in range(c)] for i in range(r)]
    elif k == "perm":
        R = [[(g.randint(1, min(6, 150 // max(r, c))) if (i + 1) % max(1, r) == j else 0) for j in range(c)] for i in range(r)]
    A = new_dn_rows(ep, R, c)
    fact(ep, op, A)
    if ep.chance(0.3) and "rows" in ep.S[A]:
        fact(ep, ep.pick(["qr", "svd"]), A)


def fact_step(ep):
    ep.rng.choice([inv, qrsvd, qrsvd])(ep)
    ep.limit(6)


# ------------------------------------------------------------------ eigensolver
def symm(ep, wide=False):
    g = ep.rng
    n = ep.size([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8], 8, 12)
    if wide:
        n = g.randint(25, 40)
    k = g.choice(["lap", "diag", "same", "blocks"]) if wide else g.choice(["rand", "rand", "lap", "diag", "same", "zero", "blocks", "neg", "gram"])
    R = [[0] * n for _ in range(n)]
    top = min(9, 150 // max(1, n))
    if k == "rand":
        mx = min(top, g.choice([1, 3, 9]))
        for i in range(n):
            for j in range(i + 1):
                R[i][j] = R[j][i] = g.randint(-mx, mx) if g.random() < 0.8 else 0
    elif k == "lap":
        for i in range(n):
            R[i][i] = 2
            if i + 1 < n:
                R[i][i + 1] = R[i + 1][i] = -1
        if n > 1 and ep.chance(0.5):
            R[0][0] = R[n - 1][n - 1] = 1
    elif k == "diag":
        for i in range(n):
            R[i][i] = g.randint(-top, top)
    elif k == "same":
        v = g.randint(-min(5, top), min(5, top))
        for i in range(n):
            R[i][i] = v
    elif k == "blocks":
        for i in range(0, n - 1, 2):
            a, b = g.randint(-min(4, top), min(4, top)), g.randint(-min(4, top), min(4, top))
            R[i][i] = R[i + 1][i + 1] = a
            R[i][i + 1] = R[i + 1][i] = b
    elif k in ("neg", "gram"):
        B = mat(ep, n, max(1, n - g.choice([0, 1, 2])), 1)
        s = -1 if k == "neg" else 1
        for i in range(n):
            for j in range(n):
                R[i][j] = max(-top, min(top, s * sum(x * y for x, y in zip(B[i], B[j]))))
    return R, n


def eig_step(ep):
    g = ep.rng
    es = ep.kinds("eig")
    if not es or ep.chance(0.08):
        z = ep.new("E")
        ep.emit("eig", "new", z=z)
        ep.S[z] = dict(k="eig")
        es = [z]
    E = ep.pick(es)
    wide = False
    As = ep.findall(lambda o: o.get("sym"))
    if As and ep.chance(0.5):
        A = ep.pick(As)
    else:
        wide = wide or ep.chance(0.006)
        R, n = symm(ep, wide)
        A = new_dn_rows(ep, R, n) if ep.chance(0.5) else new_sp_rows(ep, R, n)
        ep.S[A]["sym"] = True
        if ep.chance(0.3):
            B = new_sp_rows(ep, R, n) if ep.S[A]["k"] == "dn" else new_dn_rows(ep, R, n)
            ep.S[B]["sym"] = True
    n = ep.S[A]["r"]
    a = dict(E=E, A=A, rel=g.choice([8, 8, 8, 0, 1, 2, 4, 5, 7, -4, 16]), max=g.choice([-1, -1, n, n + 1, 1, 0, 2, 3, max(0, n - 1)]), form="ret")
    if n > 24:                                 # past every small workspace; a few vectors are enough
        a["max"] = g.choice([1, 2, 3])
    ps = ep.kinds("pair")
    if ep.chance(0.6):
        a["form"] = "out"
        if ps and ep.chance(0.8):
            a["z"] = ep.pick(ps)
        else:
            a["z"] = ep.new("P")
            ep.emit("eig", "newpair", z=a["z"])
    else:
        a["z"] = ep.new("P")
    ep.emit("eig", "solve", **a, **shift(ep))
    ep.S[a["z"]] = dict(k="pair")
    if ep.chance(0.15):
        vec.life(ep, ("eig", "pair"))
    ep.limit(8)


# ------------------------------------------------------------------ iterative solvers
def operator_of(ep, R):
    """some operator with these rows"""
    g = ep.rng
    n = len(R)
    k = g.choice(["sp", "sp", "sp", "dn", "coo", "lil", "bo"])
    if k == "sp":
        return new_sp_rows(ep, R, n)
    if k == "dn":
        return new_dn_rows(ep, R, n)
    if k in ("coo", "lil"):
        z = ep.new("B")
        ep.emit(k, "new", t="d", z=z, form="rc", r=n, c=n)
        for i in range(n):
            for j in range(n):
                if R[i][j]:
                    ep.emit(k, "add", t="d", A=z, form="one", i=i, j=j, val=R[i][j] * ep.F)
        ep.S[z] = dict(k=k, t="d", set=True, any=True, r=n, c=n, rows=R)
        return z
    h = g.randint(0, n)
    off = [0, h, n]
    z = ep.new("O")
    ep.emit("bo", "new", z=z, form="sq", ro=off)
    ep.S[z] = dict(k="bo", ro=off, co=off, r=n, c=n, b={}, rows=R)
    for i in range(2):
        for j in range(2):
            B = [row[off[j]:off[j + 1]] for row in R[off[i]:off[i + 1]]]
            if any(any(row) for row in B) or ep.chance(0.2):
                w = off[j + 1] - off[j]
                b = new_sp_rows(ep, B, w) if ep.chance(0.7) else new_dn_rows(ep, B, w)
                ep.emit("bo", "setblock", A=z, i=i, j=j, B=b)
                ep.S[z]["b"]["%d,%d" % (i, j)] = b
    return z


def ladder(ep):
    """a chain whose condition number calls for some tens of steps"""
    n = ep.rng.randint(45, 64)
    a, b = ep.rng.choice([(21, 10), (11, 5), (9, 4)])
    return [[a if i == j else -b if abs(i - j) == 1 else 0 for j in range(n)] for i in range(n)]


def system(ep, ty, n=None):
    if n is None and not ep.big and ep.chance(0.006):
        return ladder(ep)
    n = ep.rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 6]) if n is None else n
    if ep.big:
        n = ep.size([], 8, 14)
    if ty in ("cg", "pcg"):
        return dominant(ep, n, sym=True, definite=True)
    if ep.chance(0.3) and 1 < n <= 3:           # zero diagonals: genuinely indefinite
        for _ in range(50):
            R = [[0] * n for _ in range(n)]
            for i in range(n):
                for j in range(i):
                    R[i][j] = R[j][i] = ep.rng.randint(-3, 3)
            if det(R):
                return R
    return dominant(ep, n, sym=True)


def precond(ep, n):
    if ep.chance(0.3):
        return dominant(ep, n, sym=True, definite=True)
    if ep.chance(0.2):
        return [[int(i == j) for j in range(n)] for i in range(n)]
    return [[ep.rng.randint(1, 4) if i == j else 0 for j in range(n)] for i in range(n)]


def apply(R, x):
    return [sum(a * b for a, b in zip(row, x)) for row in R]


def sol(ep, n, small=False):
    q = ep.F // 4 if ep.F > 1 and ep.chance(0.5) else ep.F
    return [ep.rng.randint(-3, 3) * q for _ in range(n)] if small or ep.chance(0.9) else [0] * n


def mkvec(ep, v, view=0.3):
    z = ep.new("v")
    ep.emit("vec", "from", t="d", z=z, v=v, form="std")
    ep.S[z] = dict(k="vec", t="d", n=len(v))
    if ep.chance(view):
        w = ep.new("w")
        ep.emit("vec", "view", t="d", z=w, x=z, form="copy")
        ep.S[w] = dict(k="view", t="d", n=len(v), o=z, off=0)
        return w
    return z


def updown(ep, trunc, ab):
    """the whole solve multiplied by a power of two"""
    return {"sc": ep.pick([-20, -24, -28, 30])} if not trunc and ab == 16 and ep.chance(0.35) else {}


def limits(ep, trunc):
    g = ep.rng
    if trunc:
        return dict(max=g.choice([0, 1, 1, 1, 2, 3, 4, 5, 6, 8, 300]), rel=g.choice([16, 16, 1, 2, 3]), abs=g.choice([16, 16, 0, -1]))
    return dict(max=g.choice([200, 500, 1000]), rel=g.choice([12, 14, 16]), abs=g.choice([7, 10, 16]))


def it_step(ep):
    g = ep.rng
    ty = g.choice(["cg", "pcg", "minres", "pminres"])
    op = g.choice(["new", "solve", "solve", "solve", "solve", "free", "free", "set", "set", "edit", "life"])
    its = ep.kinds("it")
    if op == "free":
        trunc = int(ep.chance(0.25) and ep.F == 1)
        cand = ep.findall(lambda o: "rows" in o and o.get("sys") in ((("spd",) if ty in ("cg", "pcg") else ("spd", "sym"))))
        A = ep.pick(cand) if cand and ep.chance(0.6) else new_system(ep, ty)
        R = ep.S[A]["rows"]
        n = len(R)
        a = dict(ty=ty, A=A, trunc=trunc, defaults=int(not trunc and ep.chance(0.4)), form="out", **limits(ep, trunc))
        if ty in ("pcg", "pminres"):
            a["M"] = operator_of(ep, precond(ep, n))
        xs = sol(ep, n)
        a["b"] = mkvec(ep, apply(R, xs))
        if ep.chance(0.3):
            a["form"] = "ret"
            a["z"] = ep.new("v")
            ep.emit("it", "free", **a)
            ep.S[a["z"]] = dict(k="vec", t="d", n=n)
        else:
            a["x"] = guess(ep, xs)
            ep.emit("it", "free", **a, **updown(ep, trunc, 16 if a["defaults"] else a["abs"]))
        ep.limit(16)
        return
    if op == "new" or not its:
        new_it(ep, ty)
        return
    s = ep.pick(its)
    o = ep.S[s]
    if o["A"] == "":
        others = [q for q in its if ep.S[q]["ty"] == o["ty"] and ep.S[q]["A"]]
        if others:
            y = ep.pick(others)
            ep.emit("life", "assign", x=s, y=y)
            ep.S[s] = dict(ep.S[y])
        return
    A = ep.S[o["A"]]
    R = A["rows"]
    n = len(R)
    if op == "solve":
        for _ in range(g.choice([1, 1, 2, 3])):
            xs = sol(ep, n)
            b = mkvec(ep, apply(R, xs))
            full = o["max"] >= 200 and o["rel"] >= 12 and o["abs"] >= 6
            trunc = int(ep.F == 1 and (not full or ep.chance(0.1)))
            if not full and not trunc:
                limits_set(ep, s)
            ep.emit("it", "solve", S=s, b=b, x=guess(ep, xs), trunc=trunc, **updown(ep, trunc, o["abs"]))
    elif op == "set":
        f = g.choice(["lim", "lim", "A", "A", "M", "verbose"])
        if f == "lim":
            limits_set(ep, s, int(ep.F == 1 and ep.chance(0.4)))
        elif f == "A":
            B = new_system(ep, o["ty"], n)
            if len(ep.S[B]["rows"]) == n:
                ep.emit("it", "set", S=s, form="A", A=B)
                o["A"] = B
                o["refs"] = [B, o["M"]]
        elif f == "M" and o["ty"] == "cg":
            M = operator_of(ep, precond(ep, n))
            ep.emit("it", "set", S=s, form="M", M=M)
            o["M"] = M
            o["refs"] = [o["A"], M]
        elif f == "verbose":
            ep.emit("it", "set", S=s, form="verbose", verbose=ep.pick([0, 1]))
    elif op == "edit":
        if A["k"] == "sp" and n:                 # the solver sees the operator as it is now
            ep.emit("sp", "sca", t="d", u="d", A=o["A"], form="mul", val=2 * ep.F)
            if max(abs(v) for row in R for v in row) <= 40:
                A["rows"] = [[2 * v for v in row] for row in R]
            else:
                ep.emit("sp", "sca", t="d", u="d", A=o["A"], form="div", val=2 * ep.F)
    elif op == "life":
        peers = [q for q in its if q != s and ep.S[q]["ty"] == o["ty"]]
        f = g.choice(["copy", "copy", "move", "assign", "massign", "swap", "self", "default"])
        if f == "copy":
            z = ep.new("S")
            if o["A"] and ep.F == 1 and ep.chance(0.6):
                # the copy goes the same way as the original, step by step
                limits_set(ep, s, 1)
                ep.emit("life", "copy", x=s, z=z)
                ep.S[z] = dict(o)
                xs = sol(ep, n)
                b = mkvec(ep, apply(R, xs))
                x0 = [g.randint(-5, 5) for _ in range(n)]
                for q in g.sample([s, z], 2):
                    ep.emit("it", "solve", S=q, b=b, x=mkvec(ep, x0), trunc=1)
            else:
                ep.emit("life", "copy", x=s, z=z)
                ep.S[z] = dict(o)
        elif f == "move":
            z = ep.new("S")
            ep.emit("life", "move", x=s, z=z)
            ep.S[z] = dict(o)
            if ep.chance(0.5):
                ep.emit("life", "assign", x=s, y=z)
            else:
                ep.emit("life", "del", x=s)
                del ep.S[s]
        elif f == "self":
            ep.emit("life", "assign", x=s, y=s)
        elif f == "default":
            z = ep.new("S")
            ep.emit("it", "new", ty=o["ty"], form="default", z=z)
            ep.S[z] = dict(k="it", ty=o["ty"], A="", M="", refs=[])
        elif peers:
            y = ep.pick(peers)
            if f == "assign":
                ep.emit("life", "assign", x=s, y=y)
                ep.S[s] = dict(ep.S[y])
            elif f == "swap":
                ep.emit("life", "swap", x=s, y=y)
                ep.S[s], ep.S[y] = ep.S[y], ep.S[s]
            else:
                ep.emit("life", "massign", x=s, y=y)
                ep.S[s] = ep.S.pop(y)
                ep.emit("life", "del", x=y)
    ep.limit(18)


def guess(ep, xs):
    q = ep.rng.random()
    n = len(xs)
    if q < 0.15:
        return mkvec(ep, list(xs))
    if q < 0.35:
        return mkvec(ep, [0] * n)
    return mkvec(ep, [ep.rng.randint(-5, 5) * ep.F for _ in range(n)])


def limits_set(ep, s, trunc=0):
    for k, v in limits(ep, trunc).items():
        ep.emit("it", "set", S=s, form=k, **{k: v})
        ep.S[s][k] = v


def new_system(ep, ty, n=None):
    A = operator_of(ep, system(ep, ty, n))
    ep.S[A]["sys"] = "spd" if ty in ("cg", "pcg") else "sym"
    return A


def new_it(ep, ty):
    A = new_system(ep, ty)
    n = len(ep.S[A]["rows"])
    M = operator_of(ep, precond(ep, n)) if ty in ("pcg", "pminres") else ""
    z = ep.new("S")
    t = "cg" if ty == "pcg" else ty
    a = dict(ty=t, A=A, M=M, z=z, dot=ep.pick([0, 0, 1, 2, 2]), form=ep.pick(["full", "full", "defaults"]), verbose=int(ep.chance(0.05)), **limits(ep, int(ep.F == 1 and ep.chance(0.3))))
    ep.emit("it", "new", **a)
    o = dict(k="it", ty=t, A=A, M=M, refs=[A, M], max=a["max"], rel=a["rel"], abs=a["abs"])
    if a["form"] == "defaults":
        o.update(max=1000, rel=16, abs=16)
    ep.S[z] = o


# ------------------------------------------------------------------ direct solver
def sd_step(ep):
    g = ep.rng
    sds = ep.kinds("sd")
    op = g.choice(["new", "solve", "solve", "solve", "solve", "life", "editA"])
    if op == "new" or not sds:
        n = ep.size([0, 1, 2, 3, 3, 4, 6], 8, 20)
        R = nonsing(ep, n)
        A = new_sp_rows(ep, R, n)
        z = ep.new("X")
        ep.emit("sd", "new", A=A, z=z, form=ep.pick(["copy", "move"]))
        ep.S[z] = dict(k="sd", rows=R)
        q = g.random()
        if q < 0.3:
            ep.drop(A)
        elif q < 0.5 and n:
            ep.emit("sp", "sca", t="d", u="d", A=A, form="mul", val=g.choice([0, 3]) * ep.F)
        return
    s = ep.pick(sds)
    o = ep.S[s]
    if op == "solve":
        R = o["rows"]
        n = len(R)
        for _ in range(g.choice([1, 1, 2, 3])):
            tr = ep.pick([0, 1])
            T = [list(c) for c in zip(*R)] if tr and n else R
            xs = sol(ep, n)
            b = mkvec(ep, apply(T, xs))
            f = ep.pick(["ret", "resize", "view", "view"])
            a = dict(S=s, b=b, tr=tr, form=f, **shift(ep))
            if f == "view":
                a["z"] = mkvec(ep, ep.vals(n))
                ep.emit("sd", "solve", **a)
            elif f == "ret":
                a["z"] = ep.new("v")
                ep.emit("sd", "solve", **a)
                ep.S[a["z"]] = dict(k="vec", t="d", n=n)
            else:
                a["z"] = vec.new_vec(ep, "d")
                ep.emit("sd", "solve", **a)
                ep.S[a["z"]]["n"] = n
    elif op == "life":
        if ep.chance(0.2):
            z = ep.new("X")
            ep.emit("sd", "new", z=z, form="default")
            ep.S[z] = dict(k="sd", rows=[])
        vec.life(ep, ("sd",))
    ep.limit(10)
