SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Own <- O0011
 MaxUp = 2
 MaxQuiet = 1
 MaxProv = 1
 Wrong = ""
PROPERTIES Refines
INVARIANTS Known
CHECK_DEADLOCK FALSE
