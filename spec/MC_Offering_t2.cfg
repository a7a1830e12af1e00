SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Provs = {1}
 Conss = {11,12}
 MaxTake = 2
 MaxOffer = 3
 MaxOpen = 3
 MaxCrash = 1
 Strict = ""
 Mode = "ok"
INVARIANTS Follows OneProvider InUseStays
CHECK_DEADLOCK FALSE
