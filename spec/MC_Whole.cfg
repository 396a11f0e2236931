CONSTANTS MAXN = 4 CAP = 2 PLACES = 3
SPECIFICATION Spec
INVARIANTS Recorded Delivered Solvable EachAlone MetricData Export
PROPERTIES Improves Keeps 
CHECK_DEADLOCK FALSE
