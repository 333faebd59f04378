SPECIFICATION Spec
CONSTANTS
  Kinds = {"vecd", "veci", "arr", "spd", "spi", "dn", "coo", "lil", "bvec", "bm", "bo", "sd", "eig", "pair", "cg", "pcg", "minres", "pminres"}
  Depth = 2
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
