SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Procs = {1,2,3}
 MaxOps = 4
 MaxCrash = 1
 Path = "A"
 ChmodFails = TRUE
 Leaky = FALSE
INVARIANTS Exclusive OneCreator NameOk
PROPERTIES Refines
CHECK_DEADLOCK FALSE
