SPECIFICATION Spec
CONSTANTS
  Rounds = 1
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
