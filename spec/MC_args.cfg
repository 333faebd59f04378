SPECIFICATION Spec
CONSTANTS
  MaxArgs = 3
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
