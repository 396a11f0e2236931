CONSTANTS N = 4  CHAIN = {0, 2, 5}  DEPOT = {1, 4}  DEMAND = {1, 3}  CAPS = {3, 5}  PENALTIES = {0, 1, 3}  LIMITS = {1, 2, 4}
SPECIFICATION Spec
INVARIANTS Cheapest Enumeration QueueOrdered Unreached Export
CHECK_DEADLOCK FALSE
