CONSTANTS MAXN = 4 CAP = 3 PLACES = 4
SPECIFICATION Spec
INVARIANTS Recorded Delivered Solvable EachAlone MetricData Export
PROPERTIES Improves Keeps 
CHECK_DEADLOCK FALSE
