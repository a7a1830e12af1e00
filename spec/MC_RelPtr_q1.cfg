SPECIFICATION MCSpec
CONSTANTS
 Enforced = {"S02"}
 Diag = FALSE
 Locs = {0, 1, 2, 3, 5, 8, 10, 11, 13}
 Ids = {1, 2}
 OldSwap = FALSE
INVARIANTS SameTarget Decides Sound
CHECK_DEADLOCK FALSE
