SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Provs = {1,2}
 Conss = {11}
 MaxTake = 3
 MaxOffer = 2
 MaxOpen = 2
 MaxCrash = 1
 Strict = ""
 Mode = "ok"
INVARIANTS Follows OneProvider InUseStays
CHECK_DEADLOCK FALSE
