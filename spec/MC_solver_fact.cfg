SPECIFICATION Spec
CONSTANTS
  Group = "fact"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
