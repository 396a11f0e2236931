CONSTANT EXPLICIT = TRUE
SPECIFICATION Spec
INVARIANTS InTheEnd SameInstance Export
CHECK_DEADLOCK FALSE
