SPECIFICATION Spec
CONSTANTS
  Group = "mat"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
