SPECIFICATION Spec
CONSTANTS
  Group = "sol"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
