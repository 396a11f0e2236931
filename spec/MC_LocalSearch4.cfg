CONSTANTS N = 4  ROUTES = 2  ATS <- One4  DEMANDS = {1}  CAPS = {2}  PENS = {2}  GRAN = 3  SETS <- AllSets
SPECIFICATION Spec
INVARIANTS PartitionKept EndsWell NothingSkipped
PROPERTIES Falls
CHECK_DEADLOCK FALSE
