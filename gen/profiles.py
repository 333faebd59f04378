"""Which calls the random programs of each property are made of."""
from .core import Ep
from . import vec, sparse, dense, build, block, num, files, life, misc, prints, misuse, again, par


def episode(prop, rng, eid):
    return PROFILES[prop]["gen"](rng, eid)


def mix(weights, steps=(10, 40), F=(1, 1, 16), big=0.03, start=(), mixed=False, lim=5000, huge=0.03, top=False, coarse=False, wide=0, vast=()):
    """an episode of weighted steps"""
    fs = [f for f, w in weights for _ in range(w)]
    vs = list(vast)

    def g(rng, eid):
        x = rng.random()
        if x > 1 - wide or x > 1 - 2 * wide and vast:
            # values that need more than 24 bits: as products of two, or, where nothing is multiplied, as they are
            ep = Ep(rng, eid, lim=12000 if x > 1 - wide else 2**28)
            ep.wide, ep.vast = x > 1 - wide, x <= 1 - wide
        else:
            ep = Ep(rng, eid, F=rng.choice(F), big="big" if x < big else "huge" if big and x < big + huge else "", lim=lim)
        ep.mixed = mixed
        ep.coarse = coarse
        ep.top = top
        for s in start:
            s(ep)
        for _ in range(rng.randint(*steps)):
            rng.choice(vs if ep.vast else fs)(ep)
        ep.end()
        return ep
    return g


ALIAS = ["new", "arr", "arrset", "view", "view", "view", "view", "viewdefault", "fromview", "setview", "assign", "assign", "assign", "fill", "swapview",
         "setsize", "put", "put", "put", "sub", "list", "axpy", "ew", "sca"]

def splife(ep):
    vec.life(ep, ("sp",))


SP_EDIT = ["new", "adddiag", "sca", "expr", "scale", "permcols", "elim", "elimzeros", "setdata", "sort", "acc"]
SP_PROD = ["new", "todense", "mul", "muld", "transpose", "submat", "sort"]

DVIEW = ["colview", "colview", "viewuse", "viewuse", "iarith", "sca", "scale", "setline", "set", "put", "getline"]

MULV = [lambda ep: sparse.step(ep, ["mulv", "muld"]), lambda ep: dense.step(ep, ["mulv"])]

# bounded configurations (spec/MC_*.tla) explored by a single worker
ONE_WORKER = {"MC_vec"}

PROFILES = {
    "C01": dict(gen=mix([(block.op_apply, 10), (MULV[0], 4), (MULV[1], 3), (block.new_oper, 2), (block.bm_step, 2), (block.bo_step, 3), (lambda ep: build.step(ep, ["add", "perm", "elimzeros"]), 2),
                         (lambda ep: sparse.step(ep, ["sort", "transpose", "submat", "elim"]), 1), (splife, 1), (lambda ep: sparse.step(ep, ["todense", "muld", "mul"]), 2), (lambda ep: dense.step(ep, ["mul"]), 1)], start=[block.new_oper, block.new_oper], wide=0.03, vast=[lambda ep: sparse.step(ep, ["mulv", "mulv", "sort"]), lambda ep: dense.step(ep, ["mulv"]), lambda ep: block.op_apply(ep), block.new_oper]), episodes=(800, 12000), mc=["MC_oper"]),
    "C02": dict(gen=mix([(build.step, 9), (build.life, 1), (build.applied, 1)], start=[build.new_b], coarse=True, wide=0.02, vast=[build.step]), episodes=(900, 15000), mc=["MC_build"]),
    "C11": dict(gen=mix([(block.step, 9), (block.life, 1)], wide=0.03), episodes=(800, 12000), mc=["MC_block"]),
    "C03": dict(gen=mix([(sparse.step, 6), (lambda ep: sparse.step(ep, ["acc"]), 3), (splife, 1)], wide=0.02, vast=[sparse.vast_step], huge=0.06, top=True), episodes=(800, 12000), mc=["MC_sparse:acc"]),
    "C04": dict(gen=mix([(lambda ep: sparse.step(ep, SP_PROD), 9), (splife, 1)], wide=0.03, vast=[lambda ep: sparse.step(ep, ["new", "todense", "mulv", "transpose", "submat", "sort"])], huge=0.06, top=True), episodes=(800, 12000), mc=["MC_sparse:prod"]),
    "C05": dict(gen=mix([(lambda ep: sparse.step(ep, SP_EDIT), 9), (splife, 1)], wide=0.02, vast=[lambda ep: sparse.step(ep, ["new", "adddiag", "permcols", "elim", "elimzeros", "setdata", "sort", "acc"])], huge=0.06, top=True), episodes=(800, 12000), mc=["MC_sparse:edit"]),
    "C06": dict(gen=mix([(dense.step, 9), (lambda ep: vec.life(ep, ("dn",)), 1)], wide=0.03, vast=[dense.vast_step]), episodes=(800, 12000), mc=["MC_dense"]),
    "C07": dict(gen=mix([(num.fact_step, 1)], steps=(5, 15), F=(1, 1, 4), huge=0.015), episodes=(1200, 20000), mc=["MC_solver:fact"]),
    "C12": dict(gen=mix([(num.it_step, 1)], steps=(8, 30), F=(1, 1, 1, 16)), episodes=(900, 15000), mc=["MC_solver:it"]),
    "C13": dict(gen=mix([(num.sd_step, 1)], F=(1, 16)), episodes=(1000, 20000), mc=["MC_solver:sd"]),
    "C14": dict(gen=mix([(num.eig_step, 1)], steps=(5, 20), F=(1, 1, 4)), episodes=(1000, 20000), mc=["MC_solver:eig"]),
    "C15": dict(gen=mix([(files.write_step, 9), (vec.new_vec, 1), (sparse.new_sp, 2)], steps=(8, 25), F=(1, 1, 4)), episodes=(1000, 15000), mc=["MC_files:trip"]),
    "C16": dict(gen=mix([(files.read_step, 1)], steps=(8, 25), F=(1, 1, 4, 16)), episodes=(1000, 15000), mc=["MC_files:read"]),
    "C10": dict(gen=mix([(life.life, 6), (life.make, 2), (life.edit, 4)], steps=(15, 45), start=[life.make, life.make], mixed=True), episodes=(800, 15000), mc=["MC_life"]),
    "C17": dict(gen=mix([(misc.ap_step, 1)], steps=(5, 25), F=(1,)), episodes=(1500, 25000), mc=["MC_args"]),
    "C18": dict(gen=mix([(misc.pt_step, 1)], steps=(5, 20), F=(1, 1, 4), big=0.15, lim=10**9), episodes=(1000, 20000), mc=["MC_part"]),
    "C20": dict(gen=mix([(misc.tm_step, 1)], steps=(10, 40), F=(1,), lim=2 * 10**9), episodes=(1200, 20000), mc=["MC_timer"]),
    "C21": dict(gen=mix([(prints.step, 3), (life.make, 1), (life.edit, 1)], steps=(10, 30), mixed=True, F=(1, 1, 16)), episodes=(1000, 15000), mc=["MC_print"]),
    "C19": dict(gen=mix([(vec.step, 2), (sparse.step, 3), (dense.step, 3), (build.step, 2), (block.step, 2), (block.op_apply, 1), (life.edit, 1), (num.it_step, 1), (num.sd_step, 1),
                         (num.eig_step, 0), (num.fact_step, 1)], steps=(8, 25), mixed=True, big=0, start=[misuse.hook, misuse.others]), episodes=(900, 12000), mc=["MC_mis:vec","MC_mis:sp","MC_mis:dn","MC_mis:rest"]),
    "C23": dict(gen=mix([(again.step, 9), (again.again, 3)], steps=(15, 45), mixed=True, F=(1, 1, 1, 16), start=[again.hook, life.make, life.make, life.make]), episodes=(700, 12000), mc=["MC_again"]),
    "C22": dict(gen=mix([(par.step, 1)], steps=(10, 35), F=(1, 1, 4), start=[par.begin], lim=4000), episodes=(900, 12000), par=True, mc=["MC_par:mat", "MC_par:vec", "MC_par:sol"],
                assumptions=["MPI and hypre are replaced by stand-ins (harness/hypre): ranks are threads of one process; the functions of hypre that the module calls follow hypre 2.10; "
                             "BoomerAMG is an exact solver, ParaSails the inverse of the diagonal, LOBPCG exact"]),
    "C08": dict(gen=mix([(lambda ep: vec.step(ep, ALIAS), 9), (lambda ep: dense.step(ep, DVIEW), 3), (vec.life, 1)], start=[vec.new_vec, vec.new_vec]), episodes=(1200, 20000), mc=["MC_vec"]),
    "C09": dict(gen=mix([(vec.step, 1)], start=[vec.new_vec, vec.new_vec], wide=0.03, vast=[vec.vast_step], huge=0.05, top=True), episodes=(1200, 20000), mc=["MC_arith"]),
}
