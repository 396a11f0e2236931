CONSTANTS A = 2  B = 3  DIST = {3, 5}  DEMAND = {1}  CAPS = {2}  PEN = 2  CHECK = 1  EVERY = 10
SPECIFICATION Spec
INVARIANTS FindsTheBest Export
CHECK_DEADLOCK FALSE
