CONSTANTS N = 4  ROUTES = 3  CAPS = {6}  PEN = 7  STEPS = 1
SPECIFICATION Spec
INVARIANTS Refines PartitionKept PredictedIsReal Export
CHECK_DEADLOCK FALSE
