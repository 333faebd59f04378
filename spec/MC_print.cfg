SPECIFICATION Spec
CONSTANTS
  Vals = {0, 2000, 47}
  Len_ = 2
  MaxR = 2
  MaxC = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
