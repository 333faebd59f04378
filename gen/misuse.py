"""Calls outside their precondition: ordinary calls with one index, index list, length or operand made wrong (or merely different:
whether the call conforms is for the specification to say)."""
import copy

# (area, op) or (area, op, form) -> index arguments, index lists / lists of values, operand slots
# "sq": operands are replaced by rectangular matrices only
T = {}


def rule(m, ops, i=(), l=(), o=(), sq=(), forms=None, noforms=()):
    for op in ops.split():
        T[(m, op)] = dict(i=i, l=l, o=o, sq=sq, forms=forms, noforms=noforms)


rule("vec", "put", i=("i",), noforms=("iter",))
rule("vec", "get", i=("i",))
rule("vec", "sub", l=("idx",))
rule("vec", "assign", o=("y",))
rule("vec", "axpy", o=("y", "x"))
rule("vec", "comb", o=("x", "y", "z"))
rule("vec", "addz", o=("x", "y", "z"))
rule("vec", "ew", o=("y",), noforms=("div",))
rule("vec", "ewmix", o=("y",))
rule("vec", "dot", o=("y", "x"))
rule("vec", "expr", o=("y",), forms=("add", "sub"))
rule("vec", "eq", o=("y",))
rule("sp", "acc", i=("i",), o=("A",))
rule("sp", "elim", i=("i",), l=("mask",), o=("A", "b", "x"))
rule("sp", "mul", o=("A", "B"), forms=("plain",))
rule("sp", "muld", o=("A", "B"))
rule("sp", "mulv", o=("A", "x", "v"))
rule("sp", "submat", l=("rows", "cols"), o=("A",))
rule("sp", "adddiag", l=("x",), o=("A",))
rule("sp", "scale", l=("x",), o=("A", "D"))
rule("sp", "permcols", l=("perm",), o=("A",))
rule("sp", "new", i=("r", "c"), l=("p", "j", "x"), forms=("csr",))
rule("sp", "viewidx", i=("i",))
rule("dn", "acc", i=("i", "j"), o=("A",), forms=("at", "cat", "diag", "diag-out"))
rule("dn", "put", i=("i", "j"), o=("A",), noforms=("raw",))
rule("dn", "colview", i=("j",))
rule("dn", "getcol", i=("i",), o=("A",))
rule("dn", "getrow", i=("i",), o=("A",))
rule("dn", "setcol", i=("i",), o=("A", "x"))
rule("dn", "setrow", i=("i",), o=("A", "x"))
rule("dn", "get", i=("i0", "i1", "j0", "j1"), l=("rows", "cols"), o=("A",))
rule("dn", "set", i=("i0", "i1", "j0", "j1"), l=("rows", "cols"), o=("A", "B"))
rule("dn", "mul", o=("A", "B"))
rule("dn", "mulv", o=("A", "x", "v"))
rule("dn", "scale", l=("x",), o=("A",))
rule("dn", "iarith", o=("A", "B"))
rule("dn", "expr", o=("A", "B"), forms=("add", "sub"))
rule("dn", "eq", o=("A", "B"))
rule("dn", "new", i=("r", "c"), l=("v",), forms=("data",))
rule("dn", "inv", sq=("A",))
rule("bv", "block", i=("i",))
rule("bv", "read", i=("i",))
rule("bv", "new", o=("x",), forms=("data",))
rule("bm", "getblock", i=("i", "j"))
rule("bm", "setblock", i=("i", "j"), o=("B",))
rule("bo", "getblock", i=("i", "j"))
rule("bo", "setblock", i=("i", "j"), o=("B",))
rule("op", "apply", o=("A", "x", "z"))
rule("op", "inner", o=("A", "x", "y"))
for b in ("coo", "lil"):
    rule(b, "add", i=("i", "j"), l=("rows", "cols", "v"), o=("B", "x"))
    rule(b, "perm", l=("rows", "cols"))
rule("it", "new", sq=("A", "M"))
rule("it", "set", o=("A", "M"), sq=("A", "M"), forms=("A", "M"))
rule("it", "solve", o=("b", "x"))
rule("it", "free", o=("b", "x"), sq=("A", "M"))
rule("sd", "new", sq=("A",), forms=("copy",))
rule("sd", "solve", o=("b", "z"))
rule("eig", "solve", sq=("A",))
rule("pt", "part", i=("n",), sq=("A",))
rule("tm", "read", i=("i",))


def dims(ep, a):
    """the sizes that matter in a call"""
    d = {0}
    for v in a.values():
        if isinstance(v, str) and v in ep.S:
            o = ep.S[v]
            d |= {o[k] for k in ("n", "r", "c") if isinstance(o.get(k), int) and o[k] >= 0}
            for k in ("ro", "co", "off"):
                if isinstance(o.get(k), list):
                    d |= {len(o[k]) - 1, len(o[k])}
        if isinstance(v, list):
            d.add(len(v))
    return sorted(d)


def shape(o):
    return (o.get("n"), o.get("r"), o.get("c"))


def wrong_index(ep, a, v):
    g = ep.rng
    d = dims(ep, a)
    return g.choice([-1, -1, g.choice(d), g.choice(d), g.choice(d) + 1, max(d), max(d) + g.choice([1, 7]), v + 1, v - 1, -g.choice(d) - 1, 400])


def mutant(ep, m, op, a):
    """a changed copy of the arguments, or None"""
    g = ep.rng
    t = T.get((m, op))
    if not t or (t["forms"] and a.get("form") not in t["forms"]) or a.get("form") in t["noforms"]:
        return None
    b = copy.deepcopy(a)
    what = [("i", k) for k in t["i"] if k in a] + [("l", k) for k in t["l"] if isinstance(a.get(k), list)] + \
           [("o", k) for k in t["o"] if isinstance(a.get(k), str) and a[k] in ep.S] + [("sq", k) for k in t["sq"] if a.get(k) in ep.S]
    if not what:
        return None
    w, k = g.choice(what)
    if w == "i":
        b[k] = wrong_index(ep, a, a[k])
    elif w == "l":
        v = b[k]
        values = k in ("v", "x") or (m == "sp" and op == "new" and k == "x")
        q = g.random()
        if q < 0.35 and v:
            v.pop(g.randrange(len(v)))
        elif q < 0.6 or not v:
            v.insert(g.randint(0, len(v)), ep.F * g.randint(0, 2) if values else 0 if k == "mask" else wrong_index(ep, a, 0) if g.random() < 0.3 else (v[-1] if v else 0))
        elif values or k == "mask":
            v.append(v[0])
        else:
            i = g.randrange(len(v))
            v[i] = wrong_index(ep, a, v[i])
        if (m, op) == ("sp", "elim") and len(v) != len(a[k]) and "bool" in a and a["bool"] not in (0, 1):
            return None
        if k == "mask":
            b[k] = [1 if q else 0 for q in v]
    else:
        o = ep.S[a[k]]
        roots = {root(ep, s) for kk, s in a.items() if kk != k and isinstance(s, str) and s in ep.S}
        vk = ("vec", "view", "bvec")
        if (k == "z" and a.get("form") in ("resize", "out")) or a.get("form") == "vec" or (m, op) == ("vec", "expr"):
            vk = (o["k"],)
        same = (lambda p: p["k"] in vk and p.get("t") == o.get("t")) if o["k"] in vk else (lambda p: p["k"] == o["k"] and p.get("t") == o.get("t"))
        if m in ("op", "bo") and k in ("A", "B"):
            same = lambda p: p["k"] in ("sp", "dn") and p.get("t", "d") in "di"
        if m in ("it",) and (w == "sq" or k in ("A", "M")):
            same = lambda p: p["k"] in ("sp", "dn")
        c = [s for s in sorted(ep.S) if s != a[k] and same(ep.S[s]) and shape(ep.S[s]) != shape(o) and root(ep, s) not in roots
             and (ep.S[s].get("n") or 0) >= 0 and (w != "sq" or ep.S[s].get("r") != ep.S[s].get("c"))]
        if k == "z":
            pinned = {p.get("o") for p in ep.S.values() if p["k"] == "view"}
            c = [s for s in c if s not in pinned]
        if not c:
            return None
        b[k] = g.choice(c)
    return b if b != a else None


def root(ep, s):
    o = ep.S[s]
    return o.get("o", s) if o["k"] == "view" else s


def hook(ep):
    """from now on, emitting a call may first emit wrong versions of it"""
    plain = ep.emit

    def emit(m, op, **a):
        if (m, op) in T and ep.rng.random() < 0.5:
            for _ in range(ep.rng.choice([1, 1, 2, 3])):
                b = mutant(ep, m, op, a)
                if b:
                    ep.mis(m, op, **b)
        plain(m, op, **a)
    ep.emit = emit


def others(ep):
    """objects of other sizes to go wrong with"""
    from . import vec, sparse
    for n in ep.rng.sample([0, 1, 2, 3, 4, 5, 7], 2):
        vec.new_vec(ep, "d", n)
    vec.new_vec(ep, "i")
    sparse.new_dn(ep)
    sparse.new_sp(ep, "d")
    sparse.new_sp(ep, r=3, c=ep.pick([2, 4]))
