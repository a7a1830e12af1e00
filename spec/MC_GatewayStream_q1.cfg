SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Frames = 4
 MaxLen = 2
 MaxBad = 1
 MaxFault = 1
 Wrong = ""
PROPERTIES Refines
INVARIANTS AtEnd
CHECK_DEADLOCK FALSE
