SPECIFICATION Spec
CONSTANTS
  Size = 2
  Group = "sp"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
