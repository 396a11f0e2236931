CONSTANTS N = 5 ROUTES = 3 ROUNDS = 1
SPECIFICATION Spec
INVARIANTS Whole Mapped Back Adds Quality Same Export
CHECK_DEADLOCK FALSE
