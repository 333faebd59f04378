SPECIFICATION Spec
CONSTANTS
  Size = 1
  Group = "rest"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
