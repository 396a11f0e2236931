CONSTANT N = 4
SPECIFICATION Spec
INVARIANTS SectionKept IsTheChild NothingElse Export
CHECK_DEADLOCK FALSE
