SPECIFICATION Spec
CONSTANTS Group = "edit"
          Size = 1
INVARIANTS TypeOK
           Law
VIEW PView
CHECK_DEADLOCK FALSE
