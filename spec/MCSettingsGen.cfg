SPECIFICATION GenSpec
INVARIANTS Done
CHECK_DEADLOCK FALSE
CONSTANTS Comps = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}  Values = {1, 2, 3}  MaxDepth = 0  MaxSteps = 30  Way = "always"  Kinds = {1, 2, 3, 4}  Numbers = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
