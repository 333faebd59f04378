SPECIFICATION Spec
CONSTANTS
  Group = "trip"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
