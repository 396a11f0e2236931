CONSTANTS DEPTH = 4 KINDS = {"child", "initial"}
SPECIFICATION Spec
INVARIANTS NeverMissed Improve OfThisLife Export
PROPERTIES Stay OnlyBest
CHECK_DEADLOCK FALSE
