SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS Layout = "all"  MaxSteps = 6  GenModules = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}  GenWays = {1, 2, 3, 4}  GenSettings = {1, 2, 3}
