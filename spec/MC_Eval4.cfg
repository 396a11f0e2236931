CONSTANTS N = 4 K = 2 PENS = {3} EXPORT = "pairs"
SPECIFICATION Spec
INVARIANTS CostOfParts FeasibleMeansFree Whole Inverse Reversals BrokenBounds ZeroForSame ZeroMeans Export
CHECK_DEADLOCK FALSE
