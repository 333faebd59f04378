SPECIFICATION Spec
CONSTANTS
  Size = 1
  Group = "vec"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
