SPECIFICATION Spec
CONSTANTS
  Size = 2
  Group = "dn"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
