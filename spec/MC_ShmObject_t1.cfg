SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Procs = {1,2,3}
 MaxOps = 5
 MaxCrash = 1
 Kinds = {"c","o","x","r","s"}
 Again = TRUE
 LockFirst = FALSE
INVARIANTS OneName NamesOk
PROPERTIES Refines
CHECK_DEADLOCK FALSE
