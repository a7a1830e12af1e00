SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Own <- O001
 MaxUp = 1
 MaxQuiet = 1
 MaxProv = 1
 Wrong = ""
PROPERTIES Refines
INVARIANTS Known
CHECK_DEADLOCK FALSE
