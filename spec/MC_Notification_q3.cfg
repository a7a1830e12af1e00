SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Own <- O11
 MaxUp = 1
 MaxQuiet = 2
 MaxProv = 2
 Wrong = ""
PROPERTIES Refines
INVARIANTS Known
CHECK_DEADLOCK FALSE
