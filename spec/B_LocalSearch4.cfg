CONSTANTS N = 4  ROUTES = 2  ATS <- Some4  DEMANDS = {1, 2}  CAPS = {3}  PENS = {2}  GRAN = 3  SETS <- MoreSets
SPECIFICATION Inputs
INVARIANTS Export
CHECK_DEADLOCK FALSE
