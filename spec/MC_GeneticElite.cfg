CONSTANTS INI = 1  MAXIT = 7  NOIMP = 1  INTERVAL = 3  TARGET = 50  COSTS = {1, 2}  ELITE = TRUE  WINDOW = 3  LOW = 1  HIGH = 3  START = 2
SPECIFICATION Spec
INVARIANTS RecordsImprove NeverMissed BestOfLife InitialFirst ExactlyTheLimit Counted RestartsInTime InBounds LookedAtInIntervals Window
PROPERTIES RecordsStay NothingAfter OnePerStep OnlyWhenDue RightWay
CHECK_DEADLOCK FALSE
