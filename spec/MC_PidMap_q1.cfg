SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Ids = {1,2,3}
 N = 2
 MaxReg = 2
 MaxCrash = 2
INVARIANTS OneEntryEach FitsTable
PROPERTIES Refines
CHECK_DEADLOCK FALSE
