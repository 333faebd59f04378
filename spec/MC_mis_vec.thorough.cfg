SPECIFICATION Spec
CONSTANTS
  Size = 2
  Group = "vec"
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
