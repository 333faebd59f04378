SPECIFICATION Spec
CONSTANTS
  Group = "fact"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
