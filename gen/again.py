"""Programs over everything at once, in which calls are made again: later, from copies of their arguments, after other calls."""
import copy
from . import vec, sparse, dense, build, block, num, files, life, misc, prints

NOT = ("file", "x", "ap", "tm", "pt", "life", "sys")
COPY = {"vec": ("vec",), "sp": ("sp",), "dn": ("dn",), "coo": ("coo",), "lil": ("lil",), "bvec": ("bvec",), "bm": ("bm",)}


def shapes(ep, slots):
    return {s: json_shape(ep.S[s]) for s in slots if s in ep.S}


def json_shape(o):
    return repr(sorted((k, v) for k, v in o.items()))


def hook(ep):
    plain = ep.emit
    ep.pending = []

    def emit(m, op, **a):
        plain(m, op, **a)
        f = a.get("form") or ""
        if "out" not in f and f not in ("view", "resize") and m not in NOT and isinstance(a.get("z"), str) and a["z"] not in ep.S and "seed" not in a and ep.rng.random() < 0.5:
            slots = [v for k, v in a.items() if k != "z" and isinstance(v, str) and v in ep.S] + \
                    [s for v in a.values() if isinstance(v, list) for s in v if isinstance(s, str) and s in ep.S]
            if m in ("eig", "sd", "it") or op in ("inv", "qr", "svd"):
                # needs more of the arguments' values than their shapes: only at once
                b = dict(copy.deepcopy(a), z=ep.new("y"))
                plain(m, op, **b)
                plain("life", "del", x=b["z"])
                return
            ep.pending.append((m, op, copy.deepcopy(a), slots, shapes(ep, slots)))
            if len(ep.pending) > 6:
                ep.pending.pop(0)
    ep.emit = emit
    ep.plain = plain


def again(ep):
    """one of the last calls once more"""
    while ep.pending:
        m, op, a, slots, sh = ep.pending.pop(ep.rng.randrange(len(ep.pending)))
        if any(s not in ep.S for s in slots) or shapes(ep, slots) != sh:
            continue
        b = copy.deepcopy(a)
        tmp = []
        for k, v in sorted(a.items()):
            if k not in ("z", "w") and isinstance(v, str) and v in ep.S and ep.S[v]["k"] in COPY and m not in ("it", "bo", "sd") and not (m == "op" and k == "A") and ep.chance(0.4):
                c = ep.new("y")
                ep.plain("life", "copy", x=v, z=c)
                b[k] = c
                tmp.append(c)
        b["z"] = ep.new("y")
        ep.plain(m, op, **b)
        # a view of a copy must go before the copy
        for s in [b["z"]] + tmp:
            ep.plain("life", "del", x=s)
        return


def rand(ep):
    """the same seed again, with other calls (and other seeds) in between"""
    c = [x for x in ep.kinds("vec") if 0 < ep.S[x]["n"] <= 6]
    if not c:
        return
    x = ep.pick(c)
    t = ep.S[x]["t"]
    if t not in ("d", "i"):
        return
    lo, hi = ep.pick([(0, 9), (-2, 3)])
    seed = ep.pick([0, 3, 3, 7, -1])
    for _ in range(2 if ep.chance(0.5) else 1):
        ep.plain("vec", "rand", t=t, x=x, lo=lo, hi=hi, seed=seed, form=ep.pick(["mem", "free"]))


def step(ep):
    g = ep.rng
    if g.random() < 0.06:
        rand(ep)
    f = g.choice([life.make, life.edit, life.edit, life.edit, life.life, block.op_apply, vec.step, sparse.step, dense.step, build.step, block.step,
                  num.it_step, num.sd_step, num.eig_step, num.fact_step, prints.step, files.trip])
    f(ep)
    ep.limit(16)
    while ep.pending and ep.chance(0.5):
        again(ep)
