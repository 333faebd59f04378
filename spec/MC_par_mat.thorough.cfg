SPECIFICATION Spec
CONSTANTS
  Group = "mat"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
