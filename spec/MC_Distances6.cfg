CONSTANTS N = 3 POINTS = 6 ROUNDED = TRUE
SPECIFICATION Spec
INVARIANTS Exist Restricted Export
CHECK_DEADLOCK FALSE
