SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
