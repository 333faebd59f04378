SPECIFICATION Spec
CONSTANTS Group = "prod"
          Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
