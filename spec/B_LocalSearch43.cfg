CONSTANTS N = 4  ROUTES = 3  ATS <- Some4  DEMANDS = {1}  CAPS = {2}  PENS = {0, 2}  GRAN = 2  SETS <- AllSets
SPECIFICATION Inputs
INVARIANTS Export
CHECK_DEADLOCK FALSE
