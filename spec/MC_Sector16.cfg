CONSTANTS M = 16 DEPTH = 3
SPECIFICATION Spec
INVARIANTS EnclosesAll Tight Reference Export
PROPERTY Growth
CHECK_DEADLOCK FALSE
