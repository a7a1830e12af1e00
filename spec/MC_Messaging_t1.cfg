SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Msgs = 3
 Ntfs = 0
 Cap = 1
 MaxStop = 0
 MaxDrop = 1
 Wrong = ""
PROPERTIES Refines
INVARIANTS AtEnd Once Ordered
CHECK_DEADLOCK FALSE
