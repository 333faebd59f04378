SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANT TypeOK
VIEW View1
CHECK_DEADLOCK FALSE
