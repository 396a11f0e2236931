CONSTANTS N = 5  ROUTES = 2  CAPS = {12}  PEN = 7  STEPS = 1
SPECIFICATION Spec
INVARIANTS Refines PartitionKept PredictedIsReal Export
CHECK_DEADLOCK FALSE
