CONSTANT DEPTH = 3
SPECIFICATION Spec
INVARIANTS LastSaysSo PathKnown PathAsSaid KeysKept AsTheProgram Export
CHECK_DEADLOCK FALSE
