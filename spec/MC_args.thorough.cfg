SPECIFICATION Spec
CONSTANTS
  MaxArgs = 4
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
