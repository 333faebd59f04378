SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 2
  Widths = {0, 2}
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
