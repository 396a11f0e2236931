CONSTANTS LEN = 3 ZERO = FALSE UP = FALSE EVERY = 1000 USED = {1, 2, 3, 5, 6}
SPECIFICATION Spec
INVARIANTS BestIsCheapest BestIsSeen Descends Follows NeverOpen Recorded NotMissed PenaltyMoves Export
CHECK_DEADLOCK FALSE
