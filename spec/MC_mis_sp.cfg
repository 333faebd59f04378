SPECIFICATION Spec
CONSTANTS
  Size = 1
  Group = "sp"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
