SPECIFICATION MCSpec
CONSTANTS
 Enforced = {"S02"}
 Diag = FALSE
 Locs = {0, 2, 8}
 Ids = {1, 2, 3}
 OldSwap = FALSE
INVARIANTS SameTarget Decides Sound
CHECK_DEADLOCK FALSE
