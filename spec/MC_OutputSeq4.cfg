CONSTANTS N = 3 ROUTES = 3 DEPTH = 4 WHICH = "some"
SPECIFICATION Spec
INVARIANTS Holds Readable Export
CHECK_DEADLOCK FALSE
