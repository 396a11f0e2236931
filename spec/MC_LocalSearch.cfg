CONSTANTS N = 3  ROUTES = 2  ATS <- FewPlaces  DEMANDS = {1, 2}  CAPS = {3}  PENS = {2}  GRAN = 2  SETS <- QuickSets
SPECIFICATION Spec
INVARIANTS PartitionKept EndsWell NothingSkipped
PROPERTIES Falls
CHECK_DEADLOCK FALSE
