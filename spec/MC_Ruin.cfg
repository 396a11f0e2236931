CONSTANTS N = 4 ROUTES = 3 PARAMS = {101, 202, 210} PEN = 3 CAP = 5
SPECIFICATION Spec
INVARIANTS RuinAllowed RecreateAllowed NothingLost Kept OnlyRuined Export

CHECK_DEADLOCK FALSE
