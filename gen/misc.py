"""Argument parser, timer, partitioning."""
from . import vec, sparse

# ------------------------------------------------------------------ argument parser
NAMES = ["--" + w for w in ("n", "tol", "verbose", "name", "max-iter", "a", "b", "out", "file", "x1", "nn", "helper", "no-op", "na", "Tol", "a-very-long-option-name-indeed")] + ["-v", "-k", "-"]
WORDS = ["alpha", "x", "a b", "path/to/file.txt", "two words here", "yes", "false", "0x10", "1.5e3x", "-q", "-", "-x-", "a=b", "%d%s", "A",
         "a-rather-long-output-directory/with/more/of/it/file.txt", "a value of several words that goes on for a while", "0123456789012345678901234567890123456789"]


def tok(s):
    d = 2 if s.startswith("--") else 1 if s.startswith("-") else 0
    c = "str"
    try:
        if str(int(s)) == s and abs(int(s)) < 10**6:
            c = "int"
    except ValueError:
        if s in DBL:
            c = "dbl"
    return dict(s=s, d=d, c=c)


DBL = {"2.5", "0.125", "-1.75", "3.14159", "0.001", "-0.5", "100.5", "0.1", "12.34", "-7.3"}


def value(ep, ty):
    g = ep.rng
    if ty == "int":
        return str(g.choice([0, 1, -1, 7, 42, -5, 1000, 99999, g.randint(-300, 300)]))
    if ty == "dbl":
        return g.choice(sorted(DBL) + ["0", "3", "-4", "12"])
    if ty == "bool":
        return g.choice(["true", "false"])
    return g.choice([w for w in WORDS if not w.startswith("--")] + ["12", "2.5"])


def ap_new(ep):
    """a well-formed command line for a set of typed options"""
    g = ep.rng
    z = ep.new("P")
    opts = {f: g.choice(["int", "dbl", "bool", "str"]) for f in g.sample(NAMES, g.randint(0, 6))}
    if g.random() < 0.1:
        ep.emit("ap", "new", z=z, form="default")
        ep.S[z] = dict(k="ap", opts=opts, todo=[])
        return z
    ents = []
    for f in opts:
        q = g.random()
        if q < 0.25:
            continue                               # not passed
        ty = opts[f]
        n = 2 if q > 0.9 else 1                    # passed twice
        for _ in range(n):
            if ty == "bool":
                ents.append([f] + ([value(ep, g.choice(["str", "int", "bool"]))] if g.random() < 0.25 else []))
            else:
                ents.append([f] + ([value(ep, ty)] if g.random() < 0.93 else []))
    for _ in range(g.choice([0, 0, 0, 1, 2])):      # options nobody asks for
        ents.append(["--" if g.random() < 0.15 else "--zz%d" % g.randint(0, 3)] + (["q"] if g.random() < 0.5 else []))
    g.shuffle(ents)
    av = []
    for e in ents:
        if len(av) and e[0][:2] != "--" and not ok_before(av):
            continue                               # a single dash after a bare flag would be its value
        av += e
    if g.random() < 0.12:
        av.insert(g.randint(0, len(av)), "--help")
        if g.random() < 0.2:
            av.insert(g.randint(0, len(av)), "--help")
    # twice with different classes of values: types are those of the first
    ep.emit("ap", "new", z=z, form="argv", argv=[tok(s) for s in av])
    reg = list(opts)
    g.shuffle(reg)
    for _ in range(g.choice([0, 0, 1, 2])):
        if reg:
            reg.insert(g.randrange(len(reg) + 1), g.choice(reg))
    ep.S[z] = dict(k="ap", opts=opts, todo=reg)
    return z


def ok_before(av):
    """does the argument list end with a complete entry? (help is removed before anything else)"""
    av = [x for x in av if x != "--help"]
    i = 0
    while i < len(av):
        if i + 1 < len(av) and not av[i + 1].startswith("--"):
            i += 2
        else:
            i += 1
            if i == len(av):
                return False
    return True


HELPS = ["Number of steps", "a", "Tolerance (relative)", "--odd help", "help: with colon", "x y z", "A description that takes more room than any of the columns have, to the end"]


def ap_step(ep):
    g = ep.rng
    c = ep.kinds("ap")
    if not c or g.random() < 0.2:
        ap_new(ep)
        ep.limit(4)
        return
    x = ep.pick(c)
    o = ep.S[x]
    if g.random() < 0.1:
        ep.emit("ap", "show", x=x, form=g.choice(["options", "errors", "help"]))
    elif g.random() < 0.1:
        vec.life(ep, ("ap",))
    else:
        for _ in range(g.choice([1, 2, 8])):
            if not o["todo"]:
                break
            f = o["todo"].pop()
            ty = o["opts"][f]
            d = "none" if ty == "str" and g.random() < 0.5 else value(ep, ty)
            a = dict(x=x, ty=ty, flag=f)
            a["def"] = d
            if g.random() < 0.7:
                a["help"] = g.choice(HELPS)
            ep.emit("ap", "parse", **a)
    o["todo"] = list(o["todo"])


# ------------------------------------------------------------------ timer
def wait(ep):
    g = ep.rng
    u = g.choice([0, 1, 7, 250, 1000, 999999, 1000000, 1000001, g.randint(0, 3000000)])
    ep.emit("tm", "wait", us=u)
    if g.random() < 0.3:
        ep.emit("tm", "setclock", us=g.choice([-5000000, -1, 3000000, 86400000 * 20, -1800000000, g.randint(-4000000, 4000000)]))


def tm_step(ep):
    g = ep.rng
    c = ep.kinds("tm")
    if not c or g.random() < 0.1:
        z = ep.new("T")
        f = g.choice(["default", "false", "true", "true"])
        ep.emit("tm", "new", z=z, form=f)
        ep.S[z] = dict(k="tm", n=1 if f == "true" else 0)
        return
    x = ep.pick(c)
    op = g.choice(["click"] * 6 + ["wait"] * 4 + ["read"] * 3 + ["life"] * 2)
    if op == "click":
        for _ in range(g.choice([1, 1, 2, 3, 9])):
            if g.random() < 0.75:
                wait(ep)
            ep.emit("tm", "click", x=x)
            ep.S[x]["n"] += 1
    elif op == "wait":
        wait(ep)
    elif op == "read":
        n = ep.S[x]["n"] - 1
        if n > 0 and g.random() < 0.7:
            ep.emit("tm", "read", x=x, form="i", i=g.randrange(n))
        else:
            ep.emit("tm", "read", x=x, form="tot")
    else:
        vec.life(ep, ("tm",))
    ep.limit(5)


# ------------------------------------------------------------------ partitioning
def graph(ep):
    """a symmetric graph, usually connected; rows in any order, with or without a diagonal"""
    g = ep.rng
    n = ep.size([1, 2, 2, 3, 4, 5, 6, 8, 10], 15, 40)
    k = g.choice(["tree", "tree", "ring", "grid", "complete", "star", "sparse", "none", "two", "path"])
    E = set()
    if k in ("tree", "two"):
        half = n // 2 if k == "two" else n
        for i in range(1, n):
            if i == half:
                continue
            lo = half if i > half else 0
            E.add((g.randint(lo, i - 1), i))
        for _ in range(g.randint(0, n)):
            i, j = g.randrange(n), g.randrange(n)
            if i != j and (i < half) == (j < half):
                E.add((min(i, j), max(i, j)))
    elif k in ("ring", "path"):
        E = {(i, i + 1) for i in range(n - 1)} | ({(0, n - 1)} if n > 2 and k == "ring" else set())
    elif k == "grid":
        w = max(1, int(n ** 0.5))
        E = {(i, i + 1) for i in range(n - 1) if (i + 1) % w} | {(i, i + w) for i in range(n - w)}
    elif k == "complete":
        E = {(i, j) for j in range(n) for i in range(j)}
    elif k == "star":
        E = {(0, j) for j in range(1, n)}
    elif k == "sparse":
        E = {(i, j) for j in range(n) for i in range(j) if g.random() < 1.5 / n}
    perm = list(range(n))
    g.shuffle(perm)
    t = ep.pick("di")
    W = {}
    neg = g.random() < 0.2
    for (i, j) in E:
        w = g.choice([1, 1, 1, 2, 5, 9]) * (-1 if neg and g.random() < 0.5 else 1)
        W[(perm[i], perm[j])] = W[(perm[j], perm[i])] = w
    dg = g.choice([0, 0.5, 1])
    for i in range(n):
        if g.random() < dg:
            W[(i, i)] = g.choice([1, 2, 9])
    p, jj, x = [0], [], []
    sh = g.random() < 0.5
    for i in range(n):
        cols = [j for j in range(n) if (i, j) in W]
        if sh:
            g.shuffle(cols)
        jj += cols
        x += [W[(i, j)] * ep.F for j in cols]
        p.append(len(jj))
    zero = g.random() < 0.15                   # an edge whose stored value is zero is an edge
    if zero:
        x = [0 if g.random() < 0.4 else v for v in x]
    z = ep.new("G")
    ep.emit("sp", "new", t=t, z=z, form="csr", p=p, j=jj, x=x, r=n, c=n)
    ep.S[z] = dict(k="sp", t=t, r=n, c=n, graph=True, zero=zero)
    return z


def pt_step(ep):
    g = ep.rng
    if g.random() < 0.3:
        n = g.choice([1, 2, 3, 5, 9, 15])
        m = g.choice([1, 2, 4, 8, 20])
        q = g.random()
        v = [g.randrange(m) for _ in range(n)] if q < 0.8 else [m] * n if q < 0.9 else sorted((g.randrange(m) for _ in range(n)), reverse=True)
        ep.emit("pt", "removeempty", v=v)
        return
    c = ep.findall(lambda o: o.get("graph"))
    G = ep.pick(c) if c and g.random() < 0.6 else graph(ep)
    o = ep.S[G]
    n = o["r"]
    if g.random() < 0.25:
        ep.emit("pt", "adj", t=o["t"], A=G, weighted=ep.pick([0, 1]), dflt=int(g.random() < 0.2))
    else:
        for _ in range(g.choice([1, 2])):
            f = g.choice(["all", "all", "all", "contig", "ub", "n", "dflt"])
            if f == "dflt" and n < 2:
                f = "n"
            k = g.choice([1, 2, 2, 3, n, max(1, n - 1), max(1, n // 2)])
            a = dict(t=o["t"], A=G, n=min(n, k), form=f, ub=g.choice([4, 4, 5, 8]), contig=ep.pick([0, 1]), weighted=int(f == "all" and not o.get("zero") and ep.chance(0.5)))
            ep.emit("pt", "part", **a)
            if g.random() < 0.3:
                ep.emit("pt", "part", **a)
    ep.limit(6)
