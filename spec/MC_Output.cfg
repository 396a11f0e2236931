CONSTANTS N = 3 ROUTES = 3 DEPTH = 2 WHICH = "all"
SPECIFICATION Spec
INVARIANTS Holds Readable Export
CHECK_DEADLOCK FALSE
