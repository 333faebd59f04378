SPECIFICATION Spec
CONSTANTS
  Group = "eig"
  Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
