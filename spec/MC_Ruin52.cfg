CONSTANTS N = 5 ROUTES = 2 PARAMS = {310} PEN = 3 CAP = 7
SPECIFICATION Spec
INVARIANTS RuinAllowed RecreateAllowed NothingLost Kept OnlyRuined Export

CHECK_DEADLOCK FALSE
