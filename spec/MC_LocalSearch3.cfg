CONSTANTS N = 3  ROUTES = 3  ATS <- Sorted3  DEMANDS = {1, 2}  CAPS = {3}  PENS = {2}  GRAN = 2  SETS <- MoreSets
SPECIFICATION Spec
INVARIANTS PartitionKept EndsWell NothingSkipped
PROPERTIES Falls
CHECK_DEADLOCK FALSE
