"""Printing."""
from . import vec, sparse, dense, build, block, life

LABELS = ["", "", "A", "my label", "label:", "x = ", "Vector (3, 4)", "1 2 3", "  indented", "%d"]


def step(ep):
    g = ep.rng
    c = ep.findall(lambda o: o["k"] in ("vec", "view", "bvec", "arr", "sp", "dn", "coo", "lil", "bm"))
    if not c:
        life.make(ep)
        return
    for _ in range(g.choice([1, 2])):
        x = ep.pick(c)
        o = ep.S[x]
        k = o["k"]
        a = dict(x=x, t=o.get("t", "d"), label=g.choice(LABELS), to=g.choice(["ss", "ss", "ss", "cout", "default"]), prec=g.choice([0, 0, 12, 17]))
        op = {"arr": "stream", "vec": "vec", "view": "vec", "bvec": "vec", "sp": "list", "coo": "list", "lil": "list", "dn": "dense", "bm": "blocks"}[k]
        if k in ("vec", "view", "bvec") and g.random() < 0.4:
            op = "stream"
        if k in ("sp", "bm") and g.random() < 0.4:
            op = "dense"
        if op == "dense" and k == "dn":
            q = g.random()
            if q < 0.3:
                a.update(w=g.choice([8, 10, 14, 20]))
            elif q < 0.7:
                lo = {1: 0, 4: 2, 16: 4}[ep.F]
                a.update(w=g.choice([6, 8, 11, 15, 24]), p=g.randint(lo, lo + 4))
        ep.emit("print", op, **a)
