SPECIFICATION Spec
CONSTANTS
 Enforced = {"C01","C02","C03","C04","C05","C07","C08"}
 Diag = FALSE
 NSlots = 2
 Lvls <- LvlsB
 Ctls = {"QM","B"}
 MaxTs = 2
 MaxSubs = 1
 AllowScribble = TRUE
 AllowCrash = TRUE
 AllowSub = FALSE
INVARIANTS TypeOK HeldIntact CountsExact WritingOwned SubsWithinLimits SubsExact StampsDistinct BOnlyNewest
PROPERTIES Monotone CutStays
CHECK_DEADLOCK FALSE
