CONSTANTS M = 8  DEPTH = 4
SPECIFICATION Spec
INVARIANTS EnclosesAll Tight Reference Export
PROPERTY Growth
CHECK_DEADLOCK FALSE
