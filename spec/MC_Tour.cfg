CONSTANTS MAXR = 3
SPECIFICATION Spec
INVARIANTS Same Done Ordering Asymmetric Transitive Export
PROPERTY Ends
CHECK_DEADLOCK FALSE
