"""Copies, moves, assignments, swaps and destruction of every kind of object, interleaved with edits of each."""
from . import vec, sparse, dense, build, block, num

KINDS = ("vec", "arr", "sp", "dn", "coo", "lil", "bvec", "bm", "sd", "eig", "pair")


def life(ep):
    g = ep.rng
    have = sorted({o["k"] for o in ep.S.values() if o["k"] in KINDS})
    if g.random() < 0.12 and ep.kinds("bo"):
        bo_life(ep)
    elif have:
        k = g.choice(have)
        for _ in range(g.choice([1, 1, 2, 3])):
            vec.life(ep, (k,))
    ep.limit(14)


def bo_life(ep):
    A = ep.pick(ep.kinds("bo"))
    o = ep.S[A]
    z = ep.new("O")
    if ep.chance(0.5):
        ep.emit("life", "copy", x=A, z=z)
        ep.S[z] = dict(o, b=dict(o["b"]))
    else:
        ep.emit("life", "move", x=A, z=z)
        ep.S[z] = o
        ep.emit("life", "del", x=A)
        del ep.S[A]


def make(ep):
    """a new object of some kind, often two of the same kind"""
    g = ep.rng
    f = g.choice([vec.new_vec, sparse.new_sp, sparse.new_dn, filled, block.new_bv, bm, block.new_bo, sd, eig, it, lambda e: vec.step(e, ["arr", "default"]),
                  lambda e: sparse.step(e, ["newalt"]), lambda e: dense.step(e, ["newalt"])])
    for _ in range(g.choice([1, 2])):
        f(ep)
    ep.limit(16)


def filled(ep):
    z = build.new_b(ep)
    build.fill(ep, z)


def bm(ep):
    z = block.new_bm(ep)
    block.bm_set(ep, z)


def sd(ep):
    num.sd_step(ep)


def eig(ep):
    num.eig_step(ep)


def it(ep):
    if ep.kinds("it") and ep.chance(0.7):
        num.it_step(ep)
    else:
        num.new_it(ep, ep.pick(["cg", "pcg", "minres", "pminres"]))


def edit(ep):
    """change something: an object that shared state with its copy would show it"""
    g = ep.rng
    f = g.choice([lambda e: vec.step(e, ["put", "sca", "setsize", "setview", "fill", "view", "arrset"]), lambda e: vec.step(e, ["put", "sca", "setsize"]),
                  lambda e: sparse.step(e, ["sca", "adddiag", "scale", "elim", "elimzeros", "setdata", "sort", "permcols", "transpose", "mul", "submat"]),
                  lambda e: sparse.step(e, ["mulv", "submat", "mul"]),
                  lambda e: dense.step(e, ["put", "setsize", "iarith", "sca", "scale", "setline", "transpose", "mul"]), lambda e: build.step(e),
                  block.bv_step, block.bm_step, block.bo_step, sd, it, eig])
    f(ep)
    ep.limit(16)
