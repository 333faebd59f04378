SPECIFICATION Spec
CONSTANTS
  Group = "it"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
