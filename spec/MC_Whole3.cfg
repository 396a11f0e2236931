CONSTANTS MAXN = 3 CAP = 2 PLACES = 3
SPECIFICATION Spec
INVARIANTS Recorded Delivered Solvable EachAlone MetricData Export
PROPERTIES Improves Keeps Ends
CHECK_DEADLOCK FALSE
