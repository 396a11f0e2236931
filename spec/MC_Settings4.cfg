CONSTANT DEPTH = 4
SPECIFICATION Spec
INVARIANTS LastSaysSo PathKnown PathAsSaid KeysKept AsTheProgram Export
CHECK_DEADLOCK FALSE
