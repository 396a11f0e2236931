CONSTANTS N = 3 POINTS = 4 ROUNDED = TRUE
SPECIFICATION Spec
INVARIANTS Exist Restricted Export
CHECK_DEADLOCK FALSE
