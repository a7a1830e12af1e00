SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Reqs = 2
 Tries = 2
 MaxBreak = 1
 MaxFault = 1
 MaxT = 3
 To = 1
 Slow = TRUE
 Wrong = ""
PROPERTIES Refines
INVARIANTS AtEnd Known
CHECK_DEADLOCK FALSE
