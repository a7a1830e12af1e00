SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Threads = {1,2,3}
 Ks = {2}
 Max = 2
 MaxOps = 2
 Mode = "ok"
INVARIANTS Bound FreeOk
PROPERTIES Refines
CHECK_DEADLOCK FALSE
