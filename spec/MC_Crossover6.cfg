CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS SectionKept IsTheChild Export
CHECK_DEADLOCK FALSE
