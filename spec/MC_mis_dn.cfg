SPECIFICATION Spec
CONSTANTS
  Size = 1
  Group = "dn"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
