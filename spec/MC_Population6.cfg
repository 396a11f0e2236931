CONSTANTS SOLS <- Universe  MIN = 2  MORE = 3  ELITES = 0  CLOSEST = 2  DEPTH = 6
SPECIFICATION Spec
INVARIANTS Ok KeepsTheBest NoCopies Export
PROPERTIES InsertsAndSelects
CHECK_DEADLOCK FALSE
