SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Threads = {1,2}
 Ks = {1,2}
 Max = 2
 MaxOps = 4
 Mode = "ok"
INVARIANTS Bound FreeOk
PROPERTIES Refines
CHECK_DEADLOCK FALSE
