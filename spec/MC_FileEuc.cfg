CONSTANT EXPLICIT = FALSE
SPECIFICATION Spec
INVARIANTS InTheEnd SameInstance Export
CHECK_DEADLOCK FALSE
