CONSTANTS N = 3  ROUTES = 2  ATS <- Sorted3  DEMANDS = {1, 2}  CAPS = {3}  PENS = {2}  GRAN = 2  SETS <- AllSets
SPECIFICATION Inputs
INVARIANTS Export
CHECK_DEADLOCK FALSE
