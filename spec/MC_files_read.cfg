SPECIFICATION Spec
CONSTANTS
  Group = "read"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
