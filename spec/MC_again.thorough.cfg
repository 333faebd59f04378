SPECIFICATION Spec
CONSTANTS
  Rounds = 2
INVARIANTS TypeOK
VIEW PView
CHECK_DEADLOCK FALSE
