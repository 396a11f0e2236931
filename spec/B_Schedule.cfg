CONSTANTS STEPS = {1, 2, 3, 4, 5}  RATES = {1}  DEPTH = 9
SPECIFICATION Spec
INVARIANT Export
CHECK_DEADLOCK FALSE
