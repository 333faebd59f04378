SPECIFICATION Spec
CONSTANTS
  Group = "read"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
