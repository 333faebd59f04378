SPECIFICATION Spec
CONSTANTS
  Vals = {0, 2000, 47, 999999}
  Len_ = 3
  MaxR = 3
  MaxC = 3
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
