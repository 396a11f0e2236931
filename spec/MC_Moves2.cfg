CONSTANTS N = 3  ROUTES = 2  CAPS = {3}  PEN = 7  STEPS = 2
SPECIFICATION Spec
INVARIANTS Refines PartitionKept PredictedIsReal Export
CHECK_DEADLOCK FALSE
