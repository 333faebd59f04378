SPECIFICATION Spec
CONSTANTS Group = "acc"
          Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
