CONSTANTS N = 4  ROUTES = 2  CAPS = {6}  PEN = 7  STEPS = 1
SPECIFICATION Spec
INVARIANTS Refines PartitionKept PredictedIsReal Export
CHECK_DEADLOCK FALSE
