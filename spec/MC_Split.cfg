CONSTANTS N = 4  CHAIN = {0, 5}  DEPOT = {1, 4}  DEMAND = {1, 3}  CAPS = {3, 5}  PENALTIES = {1}  LIMITS = {1, 2}
SPECIFICATION Spec
INVARIANTS Cheapest Enumeration QueueOrdered Unreached Export
CHECK_DEADLOCK FALSE
