CONSTANTS SOLS <- Universe  MIN = 2  MORE = 1  ELITES = 1  CLOSEST = 1  DEPTH = 5
SPECIFICATION Spec
INVARIANTS Ok KeepsTheBest NoCopies Export
PROPERTIES InsertsAndSelects
CHECK_DEADLOCK FALSE
