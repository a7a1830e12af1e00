SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Threads <- TS3
 Apps <- T3
 NLogs = 2
 Events = {0,1}
 MaxCrash = 2
 LockFirst = TRUE
INVARIANTS OwnersConsistent MarkedAreLeft
PROPERTIES Refines
CHECK_DEADLOCK FALSE
