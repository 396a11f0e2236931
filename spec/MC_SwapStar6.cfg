CONSTANTS A = 3  B = 3  DIST = {3, 6}  DEMAND = {1}  CAPS = {2, 3}  PEN = 2  CHECK = 25  EVERY = 300
SPECIFICATION Spec
INVARIANTS FindsTheBest Export
CHECK_DEADLOCK FALSE
