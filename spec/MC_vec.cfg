SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANT TypeOK
VIEW View1
CHECK_DEADLOCK FALSE
