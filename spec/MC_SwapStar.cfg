CONSTANTS A = 2  B = 2  DIST = {3, 4, 6}  DEMAND = {1}  CAPS = {2}  PEN = 2  CHECK = 1  EVERY = 20
SPECIFICATION Spec
INVARIANTS FindsTheBest Export
CHECK_DEADLOCK FALSE
