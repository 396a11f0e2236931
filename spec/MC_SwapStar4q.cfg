CONSTANTS A = 1  B = 3  DIST = {2, 4}  DEMAND = {0, 1, 3}  CAPS = {2, 3}  PEN = 1  CHECK = 1  EVERY = 30
SPECIFICATION Spec
INVARIANTS FindsTheBest Export
CHECK_DEADLOCK FALSE
