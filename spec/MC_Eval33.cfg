CONSTANTS N = 3 K = 3 PENS = {0, 3} EXPORT = "pairs"
SPECIFICATION Spec
INVARIANTS CostOfParts FeasibleMeansFree Whole Inverse Reversals BrokenBounds ZeroForSame ZeroMeans Export
CHECK_DEADLOCK FALSE
