CONSTANTS
  Enforced = {"S01"}
  Diag = FALSE
  N = 2
  Rd = {1, 2}
  MaxOps = 3
  MaxLk = 2
  GiveBack = TRUE
SPECIFICATION MCSpec
INVARIANTS CanRegister Outcome NoOverlap Latest
CHECK_DEADLOCK FALSE
