SPECIFICATION Spec
CONSTANTS
  Kinds = {"vecd", "arr", "spd", "dn", "coo", "lil", "bvec", "bm", "bo", "sd"}
  Depth = 3
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
