CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS SectionKept IsTheChild NothingElse Export
CHECK_DEADLOCK FALSE
