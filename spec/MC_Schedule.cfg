CONSTANTS STEPS = {1, 2, 3, 5}  RATES = {1, 2, 3}  DEPTH = 8
SPECIFICATION Spec
INVARIANTS ExactlyItsSteps ResetIsNew NotTooEarly LooksAtTheClock
PROPERTIES StaysFinished DoneInTime
CHECK_DEADLOCK FALSE
