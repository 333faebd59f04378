SPECIFICATION Spec
CONSTANTS
  Group = "trip"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
