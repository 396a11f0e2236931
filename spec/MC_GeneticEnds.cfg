CONSTANTS INI = 2  MAXIT = 5  NOIMP = 2  INTERVAL = 2  TARGET = 50  COSTS = {1, 2}  ELITE = TRUE  WINDOW = 3  LOW = 1  HIGH = 3  START = 2
SPECIFICATION Spec

PROPERTIES Ends
CHECK_DEADLOCK FALSE
