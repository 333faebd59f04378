SPECIFICATION Spec
CONSTANTS
  Group = "vec"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
