CONSTANTS N = 5 ROUTES = 3 PARAMS = {210, 302, 410} PEN = 3 CAP = 7
SPECIFICATION Spec
INVARIANTS RuinAllowed RecreateAllowed NothingLost Kept OnlyRuined Export

CHECK_DEADLOCK FALSE
