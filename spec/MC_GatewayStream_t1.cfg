SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Frames = 6
 MaxLen = 3
 MaxBad = 2
 MaxFault = 2
 Wrong = ""
PROPERTIES Refines
INVARIANTS AtEnd
CHECK_DEADLOCK FALSE
