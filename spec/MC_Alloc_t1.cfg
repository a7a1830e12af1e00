SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Procs = {1,2,3}
 Sizes = {0,1,3}
 Aligns = {1,2,4}
 Low = 3
 High = 11
 MaxOps = 3
 MaxCrash = 1
 Mode = "cas"
INVARIANTS NothingOutside ReportOk
PROPERTIES Refines
CHECK_DEADLOCK FALSE
