SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS Timers = {1, 2, 3}  Works = {0, 4, 9, 17, 30}  MaxSteps = 14  Depth = 3
