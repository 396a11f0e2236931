CONSTANTS INI = 2  MAXIT = 9  NOIMP = 2  INTERVAL = 2  TARGET = 50  COSTS = {1, 2, 3}  ELITE = FALSE  WINDOW = 5  LOW = 1  HIGH = 3  START = 2
SPECIFICATION Spec
INVARIANTS RecordsImprove NeverMissed BestOfLife InitialFirst ExactlyTheLimit Counted RestartsInTime InBounds LookedAtInIntervals Window
PROPERTIES RecordsStay NothingAfter OnePerStep OnlyWhenDue RightWay
CHECK_DEADLOCK FALSE
