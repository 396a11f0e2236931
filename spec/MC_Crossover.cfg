CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS SectionKept IsTheChild NothingElse Export
CHECK_DEADLOCK FALSE
