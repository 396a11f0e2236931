CONSTANTS N = 3  ROUTES = 2  ATS <- FewPlaces  DEMANDS = {1}  CAPS = {2}  PENS = {2}  GRAN = 2  SETS <- MoreSets
SPECIFICATION Spec
INVARIANTS PartitionKept
PROPERTIES Ends
CHECK_DEADLOCK FALSE
