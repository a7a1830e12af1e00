CONSTANTS
  Enforced = {"S01"}
  Diag = FALSE
  N = 3
  Rd = {1}
  MaxOps = 4
  MaxLk = 2
  GiveBack = TRUE
SPECIFICATION MCSpec
INVARIANTS CanRegister Outcome NoOverlap Latest
CHECK_DEADLOCK FALSE
