CONSTANTS N = 3 ROUTES = 2 PARAMS = {101, 110, 202, 410} PEN = 3 CAP = 5
SPECIFICATION Spec
INVARIANTS RuinAllowed RecreateAllowed NothingLost Kept OnlyRuined Export
PROPERTY Ends_
CHECK_DEADLOCK FALSE
