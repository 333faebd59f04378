SPECIFICATION Spec
CONSTANTS
  Group = "sol"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
