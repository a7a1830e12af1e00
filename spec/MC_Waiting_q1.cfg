SPECIFICATION Spec
CONSTANTS
 Enforced = {}
 Diag = FALSE
 Ws = {1,2,3}
 NotifyInside = TRUE
INVARIANT NeverLate
PROPERTIES Refines EverybodyReturns
CHECK_DEADLOCK FALSE
