CONSTANTS TARGETS = {5, 20, 50, 95}
SPECIFICATION Spec
INVARIANTS Counts Decided Export
CHECK_DEADLOCK FALSE
