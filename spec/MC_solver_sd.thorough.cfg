SPECIFICATION Spec
CONSTANTS
  Group = "sd"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
