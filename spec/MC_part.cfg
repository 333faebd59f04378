SPECIFICATION Spec
CONSTANTS
  MaxVertices = 4
  MaxLabel = 3
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
