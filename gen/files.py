"""Files: hand-made files, readers, writers, truncation, bit-exact round trips."""
import struct
from . import vec, sparse

SPF = ["coo", "adj", "graph", "table", "csr", "binm", "mtx", "mtxl"]


def put(ep, fmt=None):
    g = ep.rng
    fmt = fmt or g.choice(SPF + ["text", "binv"])
    t = "i" if ep.chance(0.35) else "d"
    sym = 0
    z = ep.new("f")
    n = ep.dim()
    info = {}
    if fmt in ("text", "binv"):
        c = [ep.vals(n, t)]
        info = dict(n=n)
    elif fmt in ("csr", "binm"):
        r, cc = ep.dim(), ep.dim()
        p, j, x = sparse.csr(ep, t, r, cc)
        c = [[r], [cc], p, j, x]
        info = dict(r=r, c=cc, nnz=len(j))
    elif fmt == "table":
        r = ep.dim()
        w = g.randint(1, ep.size([8], 20, 60))
        c = [g.sample(range(w), g.randint(0, min(w, 12))) if ep.chance(0.8) else [] for _ in range(r)]
        # a line without numbers at the end of a file without a final newline is not a line
        info = dict(r=r, c=max([max(x) + 1 for x in c if x] or [0]), nnz=sum(map(len, c)))
    else:
        tri = g.choice(["any", "any", "lower", "upper"])
        ext = ep.size([9], 24, 70)                    # extents up to here
        m = g.randint(1, ext)
        w = m if tri != "any" else g.randint(1, ext)
        k = g.randint(1, 14 if ext < 10 else 40)
        c = []
        for _ in range(k):
            i, j = g.randrange(m), g.randrange(w)
            if tri == "lower" and i < j or tri == "upper" and i > j:
                i, j = j, i
            c.append([i, j, ep.val(t, nz=ep.chance(0.9))])
        if ep.chance(0.6):
            c = list({(e[0], e[1]): e for e in c}.values())         # each position once
        if fmt == "graph":
            c = [e for e in c if e[0] != e[1]] or [[0, 1, 0]]
            if not any(e[0] < e[1] for e in c):
                c = [[min(e[:2]), max(e[:2]), 0] for e in c]
        if fmt in ("mtx", "mtxl"):
            if ep.chance(0.1):
                c = []
            sym = int(tri != "any" and ep.chance(0.7))
            r, cc = m, w
            if sym:
                r = cc = max(m, w)
            elif ep.chance(0.4):
                r, cc = m + g.randint(0, 3), w + g.randint(0, 3)
            info = dict(r=r, c=cc)
            c = [[r, cc, len(c)]] + [[e[0] + 1, e[1] + 1] + ([e[2]] if fmt == "mtx" else []) for e in c]
        elif fmt in ("adj", "graph"):
            c = [e[:2] for e in c]
        if fmt in ("coo", "adj"):
            info = dict(r=1 + max(e[0] for e in c), c=1 + max(e[1] for e in c), s=1 + max(max(e[:2]) for e in c))
        elif fmt == "graph":
            q = 1 + max(e[1] for e in c if e[0] < e[1])
            info = dict(r=q, c=q)
    nl = 1 if (fmt == "table" and c and not c[-1]) else ep.pick([1, 1, 0])
    ep.emit("file", "put", z=z, fmt=fmt, t=t, sym=sym, c=c, num=ep.pick(["plain", "dot", "exp"]), sep=ep.pick(["sp", "tab", "wide", "pad", "crlf"]), nl=nl,
            banner=ep.pick([1, 2, 4]) if sym or ep.chance(0.7) else 0)
    ep.S[z] = dict(k="file", fmt=fmt, t=t, sym=sym, bad=0, **info)
    return z


def read(ep, f=None):
    g = ep.rng
    c = ep.kinds("file")
    f = f or (ep.pick(c) if c and ep.chance(0.6) else put(ep))
    o = ep.S[f]
    fmt = o["fmt"]
    if o.get("empty"):
        return
    t = o["t"] if fmt in ("binv", "binm") else "d" if o["t"] == "d" else ep.pick("iid")
    sym = int(fmt in ("coo", "adj") and ep.chance(0.4))
    if sym and o.get("dup"):
        sym = 0
    z = ep.new("a" if fmt in ("text", "binv") else "A")
    ep.emit("file", "read", x=f, z=z, fmt=fmt, t=t, sym=sym, dflt=ep.pick([0, 1]))
    if o["bad"]:
        return
    if fmt in ("text", "binv"):
        ep.S[z] = dict(k="arr", t=t, n=o["n"])
    else:
        r, cc = (o["s"], o["s"]) if sym else (o["r"], o["c"])
        ep.S[z] = dict(k="sp", t=t, r=r, c=cc, nnz=1)


def write(ep):
    g = ep.rng
    if ep.chance(0.3):
        fmt = g.choice(["text", "text", "binv"])
        c = ep.find(lambda o: o["k"] in (("vec", "arr", "view") if fmt == "text" else ("vec", "arr")))
        x = ep.pick(c) if c else vec.new_vec(ep)
        o = ep.S[x]
        form = "vec" if o["k"] == "vec" and (fmt == "binv" or ep.chance(0.5)) else "any"
        info = dict(n=o["n"])
        sym = 0
    else:
        fmt = g.choice(["coo", "adj", "table", "csr", "binm", "mtx"])
        if ep.chance(0.3):
            x = symmetric(ep)
        else:
            x = sparse.any_sp(ep, p=0.5) if False else sparse.any_sp(ep)
        o = ep.S[x]
        sym = int(fmt in ("coo", "adj") and ep.chance(0.4))
        form = "sp"
        info = dict(r=o["r"], c=o["c"])
    if ep.chance(0.06):
        ep.emit("file", "writebad", x=x, fmt=fmt, t=o["t"], sym=sym, form=form, where=ep.pick(["dir", "missing"]))
        return
    c = ep.kinds("file")
    z = ep.pick(c) if c and ep.chance(0.4) else ep.new("f")
    ep.emit("file", "write", x=x, z=z, fmt=fmt, t=o["t"], sym=sym, form=form, dflt=ep.pick([0, 1]))
    ep.S[z] = dict(k="file", fmt=fmt, t=o["t"], sym=0 if fmt == "mtx" else sym, bad=0, **info)
    # the shape read back is not the one written for the list formats: read back and drop, so that nothing depends on it
    if fmt in ("coo", "adj", "table"):
        ep.S[z]["k"] = "file-unknown"
        known = fmt == "table" or o.get("full")
        if known:
            y = ep.new("A")
            ep.emit("file", "read", x=z, z=y, fmt=fmt, t=o["t"], sym=sym, dflt=0)
            ep.emit("life", "del", x=y)
        ep.S[z]["k"] = "file"
        ep.drop(z)
    elif ep.chance(0.7):
        read(ep, z)


def symmetric(ep):
    """a sparse matrix with symmetric contents and a nonzero last diagonal entry"""
    g = ep.rng
    n = ep.pdim()
    t = ep.pick("di")
    E = {}
    for i in range(n):
        for j in range(i + 1):
            if g.random() < 0.4:
                E[i, j] = E[j, i] = ep.val(t, nz=True)
    E[n - 1, n - 1] = ep.val(t, nz=True)
    p, j, x = [0], [], []
    for i in range(n):
        cols = [c for c in range(n) if (i, c) in E]
        if ep.chance(0.5):
            g.shuffle(cols)
        j += cols
        x += [E[i, c] for c in cols]
        p.append(len(j))
    z = ep.new("A")
    ep.emit("sp", "new", t=t, z=z, form="csr", p=p, j=j, x=x, r=n, c=n)
    ep.S[z] = dict(k="sp", t=t, r=n, c=n, nnz=len(j), full=True)
    return z


def trunc(ep):
    c = ep.find(lambda o: o["k"] == "file" and o["fmt"] in ("binv", "binm", "csr") and not o["bad"])
    f = ep.pick(c) if c and ep.chance(0.5) else put(ep, ep.pick(["binv", "binm", "csr"]))
    ep.emit("file", "trunc", x=f, keep=ep.rng.choice([ep.rng.randint(0, 30), ep.rng.randint(0, 500), 8 * ep.rng.randint(0, 12)]))
    ep.S[f]["bad"] = 1
    read(ep, f)


def missing(ep):
    fmt = ep.pick(SPF + ["text", "binv"])
    ep.emit("file", "readmissing", z=ep.new("A"), fmt=fmt, t=ep.pick("di"), sym=ep.pick([0, 1]) if fmt in ("coo", "adj") else 0, form=ep.pick(["dir", "file"]))


def read_step(ep):
    ep.rng.choice([put, read, read, read, read, trunc, missing])(ep)
    ep.limit(9)


def write_step(ep):
    ep.rng.choice([write, write, write, read, trip, trip])(ep)
    ep.limit(9)


# ------------------------------------------------------------------ bit patterns
SPECIAL = ["0000000000000000", "3ff0000000000000", "bff0000000000000", "0000000000000001", "8000000000000001", "000fffffffffffff", "0010000000000000",
           "7fefffffffffffff", "ffefffffffffffff", "3fb999999999999a", "3fd5555555555555", "400921fb54442d18", "4340000000000000", "4340000000000001",
           "3ff0000000000001", "3fefffffffffffff", "7fe0000000000000", "3e112e0be826d695", "c08f400000000001", "41dfffffffc00000"]


def bitval(ep, t, negzero):
    g = ep.rng
    if t == "i":
        return str(g.choice([0, 1, -1, 7, 2147483647, -2147483648, g.randint(-2**31, 2**31 - 1), g.randint(-9999999, 9999999)]))
    x = g.random()
    if x < 0.35:
        return g.choice(SPECIAL + (["8000000000000000"] if negzero else []))
    if x < 0.7:
        while True:
            u = g.getrandbits(64)
            if (u >> 52) & 0x7ff != 0x7ff:
                return "%016x" % u
    v = g.choice([g.uniform(-1, 1), g.uniform(-1e6, 1e6), g.randint(1, 999) / g.randint(1, 999), 10.0 ** g.randint(-300, 300)])
    return "%016x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def trip(ep):
    g = ep.rng
    t = "i" if ep.chance(0.25) else "d"
    x, z = ep.new("x"), ep.new("x")
    if ep.chance(0.4):
        n = ep.dim()
        ep.emit("x", "vec", t=t, z=x, v=[bitval(ep, t, True) for _ in range(n)])
        ep.emit("x", "trip", t=t, x=x, z=z, fmt=g.choice(["text", "binv"]), form=ep.pick(["vec", "std"]), sym=0)
    else:
        fmt = g.choice(["coo", "mtx", "csr", "binm"])
        sym = int(fmt == "coo" and ep.chance(0.3))
        if sym:
            n = ep.pdim()
            E = {}
            for i in range(n):
                for j in range(i + 1):
                    if g.random() < 0.5:
                        E[i, j] = E[j, i] = bitval(ep, t, False)
            E[0, 0] = bitval(ep, t, False)
            r = c = n
            p, j, v = [0], [], []
            for i in range(n):
                cols = [q for q in range(n) if (i, q) in E]
                g.shuffle(cols)
                j += cols
                v += [E[i, q] for q in cols]
                p.append(len(j))
        else:
            r, c = ep.dim(), ep.dim()
            if fmt == "coo":
                r, c = max(r, 1), max(c, 1)
            p, j, _ = sparse.csr(ep, t, r, c)
            v = [bitval(ep, t, fmt in ("csr", "binm")) for _ in j]
            if fmt == "coo" and not j:
                p, j, v = [0] * r + [1], [c - 1], [bitval(ep, t, False)]
        ep.emit("x", "mat", t=t, z=x, r=r, c=c, p=p, j=j, x=v)
        ep.emit("x", "trip", t=t, x=x, z=z, fmt=fmt, sym=sym, form="m")
    ep.emit("life", "del", x=x)
    ep.emit("life", "del", x=z)
