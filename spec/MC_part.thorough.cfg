SPECIFICATION Spec
CONSTANTS
  MaxVertices = 5
  MaxLabel = 5
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
