SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
