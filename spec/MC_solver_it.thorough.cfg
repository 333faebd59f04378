SPECIFICATION Spec
CONSTANTS
  Group = "it"
  Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
