CONSTANTS DEPTH = 5 KINDS = {"child"}
SPECIFICATION Spec
INVARIANTS NeverMissed Improve OfThisLife Export
PROPERTIES Stay OnlyBest
CHECK_DEADLOCK FALSE
