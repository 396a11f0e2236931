CONSTANTS LEN = 4 ZERO = TRUE UP = TRUE EVERY = 2 USED = {1, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS BestIsCheapest BestIsSeen Descends Follows NeverOpen Recorded NotMissed PenaltyMoves Export
CHECK_DEADLOCK FALSE
