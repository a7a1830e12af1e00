SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Threads = {0, 1}
 Ns = {1, 2, 3}
 MaxOps = 7
 Slots = 2
 Mode = "ok"
INVARIANTS Explained SameState Consistent
CHECK_DEADLOCK FALSE
