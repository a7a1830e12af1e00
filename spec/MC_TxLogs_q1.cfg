SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Threads <- TS2
 Apps <- T2
 NLogs = 2
 Events = {0,1}
 MaxCrash = 1
 LockFirst = TRUE
INVARIANTS OwnersConsistent MarkedAreLeft
PROPERTIES Refines
CHECK_DEADLOCK FALSE
