CONSTANTS N = 2 POINTS = 4 ROUNDED = FALSE
SPECIFICATION Spec
INVARIANTS Exist Restricted Export
CHECK_DEADLOCK FALSE
