SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS Grid = {0}  MaxPts = 1  MaxObjs = 3  MaxSteps = 14
