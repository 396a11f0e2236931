CONSTANTS SOLS <- Wider  MIN = 2  MORE = 2  ELITES = 2  CLOSEST = 2  DEPTH = 5
SPECIFICATION Spec
INVARIANTS Ok KeepsTheBest NoCopies Export
PROPERTIES InsertsAndSelects
CHECK_DEADLOCK FALSE
