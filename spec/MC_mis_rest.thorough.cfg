SPECIFICATION Spec
CONSTANTS
  Size = 2
  Group = "rest"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
