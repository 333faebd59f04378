SPECIFICATION Spec
CONSTANTS Group = "acc"
          Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
