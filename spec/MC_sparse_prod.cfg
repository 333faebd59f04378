SPECIFICATION Spec
CONSTANTS Group = "prod"
          Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
