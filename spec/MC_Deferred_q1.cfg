SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Ids = {1,2}
 Owners = {1}
 MaxDue = 1
 MaxPass = 2
PROPERTIES Refines
CHECK_DEADLOCK FALSE
