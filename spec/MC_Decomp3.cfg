CONSTANTS N = 3 ROUTES = 3 ROUNDS = 2
SPECIFICATION Spec
INVARIANTS Whole Mapped Back Adds Quality Same Export
CHECK_DEADLOCK FALSE
