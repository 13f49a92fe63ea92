SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS MaxObjects = 4  MaxSteps = 14  Deep = TRUE  GenCalls = {1, 2, 3, 4, 5, 6, 7}  GenObjects = {1}
