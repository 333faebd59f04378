SPECIFICATION Spec
CONSTANTS
  Group = "sd"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
