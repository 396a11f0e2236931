CONSTANTS TARGETS = {0, 5, 10, 20, 30, 40, 43, 50, 60, 70, 80, 90, 95, 100}
SPECIFICATION Spec
INVARIANTS Counts Decided Export
CHECK_DEADLOCK FALSE
