SPECIFICATION Spec
CONSTANTS Group = "edit"
          Size = 2
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
